//! X01: threads that load configurations, parse URIs, parse and evaluate schedules and run their own parsers, pre-empted
//! at allocations, system calls, environment reads, log records and user code. Oracle: every operation alone, in a
//! process of its own.
use crate::cov::{gen_at, with_blocks, At};
use crate::cron::{self, gen_switches};
use crate::hocon::{self, Content};
use crate::parse::chars::Built;
use crate::parse::Probe;
use crate::parse::g::{gen_input, valid, Gen, GenCfg, Model, No, Policy, G};
use crate::parse::live::{frames, level, live, Frame};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{apart, RunOut, Scenario, Tier};
use crate::sched::{self, Switches};
use crate::sys::{world, IoFault, TASK};
use crate::util::{begin, finish, harness, sut, sut_catch, Panic};
use chrono::{DateTime, TimeZone, Utc};
use oni_comb_crond_rs::{CronInterval, CronParser, CronSchedule, CronSpecification};
use oni_comb_hocon_rs::model::ConfigFactory;
use oni_comb_parser_rs::prelude::*;
use oni_comb_uri_rs::models::uri::Uri;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Op {
  Uri(String),
  /// text, start minute, instants, through the specification
  Cron(String, i64, u8, bool),
  /// shared schedule, start minute, instants
  Fire(u8, i64, u8),
  Load(String),
  Str(Content),
  /// grammar, text, through a parser this thread keeps, panic at this call of user code
  Own(u8, String, bool, Option<u32>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
  hash_seed: u64,
  rules: Vec<G>,
  tops: Vec<G>,
  pol: Policy,
  scheds: Vec<String>,
  files: Vec<(String, Content)>,
  env: Vec<(String, String)>,
  faults: Vec<IoFault>,
  chunks: Vec<u32>,
  level: u8,
  threads: Vec<Vec<Op>>,
  switches: Switches,
  #[serde(default)]
  at: Vec<At>,
}
struct Cx {
  p: Plan,
  inputs: BTreeMap<(usize, usize), &'static [char]>,
  scheds: Vec<Option<CronSchedule<Utc>>>,
  want: BTreeMap<(usize, usize), String>,
  /// Log records of the operation each thread is in.
  tape: BTreeMap<i32, (u64, u64)>,
  out: RunOut,
  records: u64,
  panics: u64,
  errors: u64,
  overlap: u64,
  active: u32,
}
static mut CX: *mut Cx = std::ptr::null_mut();
fn cx() -> &'static mut Cx {
  unsafe { &mut *CX }
}

// shared between threads only if the type allows it
struct Which<T>(PhantomData<T>);
trait NotSync {
  fn shareable(&self) -> bool {
    false
  }
}
impl<T> NotSync for &Which<T> {}
impl<T: Sync> Which<T> {
  fn shareable(&self) -> bool {
    true
  }
}

struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn flush(&self) {}
  fn log(&self, rec: &log::Record) {
    let text = rec.args().to_string();
    harness(|| {
      let t = TASK.with(|t| t.get());
      let c = cx();
      c.records += 1;
      if crate::util::VERBOSE.load(Relaxed) {
        eprintln!("record of {}: {}", t, text);
      }
      let e = c.tape.entry(t).or_default();
      e.0 += 1;
      e.1 = mix(e.1 ^ hash_str(&text) ^ rec.level() as u64);
      sched::yield_point(sched::YK_LOG);
    })
  }
}

fn at(min: i64) -> Option<DateTime<Utc>> {
  Utc.timestamp_opt(min.checked_mul(60)?, 0).single()
}
fn fires(it: impl Iterator<Item = DateTime<Utc>>, n: u8) -> String {
  let mut s = String::new();
  for t in it.take(n as usize) {
    harness(|| sched::yield_point(sched::YK_OP));
    s += &format!(" {}", t.timestamp());
  }
  s
}
fn perform(c: &Cx, id: (usize, usize), op: &Op, own: &mut Option<Built>) -> String {
  match op {
    Op::Uri(t) => match Uri::parse(t) {
      Ok(u) => format!(
        "{} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
        u,
        u,
        u.port(),
        u.user_info().map(|x| x.to_string()),
        u.host_name().map(|h| h.to_string()),
        u.path().map(|x| x.parts().clone()),
        u.query().map(|q| q.as_string()),
        u.fragment()
      ),
      Err(e) => format!("error {}", e),
    },
    Op::Cron(t, m, n, spec) => match CronParser::parse(t) {
      Ok(e) => {
        let s = format!("{:?}", e);
        match at(*m) {
          Some(st) if *n > 0 => {
            let f = if *spec {
              let i = CronInterval::new(
                intervals_rs::LimitValue::Limit(st),
                intervals_rs::LimitValue::<DateTime<Utc>>::Limitless,
                CronSpecification::new(e),
              );
              fires(i.iter(Utc), *n)
            } else {
              match CronSchedule::<Utc>::new(t) {
                Ok(k) => fires(k.upcoming(st), *n),
                Err(e) => format!("error {:?}", e),
              }
            };
            s + &f
          }
          _ => s,
        }
      }
      Err(e) => format!("error {:?}", e),
    },
    Op::Fire(k, m, n) => match (c.scheds.get(*k as usize), at(*m)) {
      (Some(Some(k)), Some(st)) => fires(k.upcoming(st), *n),
      _ => "none".into(),
    },
    Op::Load(f) => conf(ConfigFactory::new().load_from_file(f)),
    Op::Str(k) => conf(ConfigFactory::new().parse_from_string(std::str::from_utf8(&hocon::bytes_of(k)).unwrap_or(""))),
    Op::Own(g, _, keep, _) => {
      let s = c.inputs[&id];
      let b;
      // a cache may answer a second parse of the same slice, and all empty slices are the same
      let b = if *keep && !s.is_empty() {
        if own.is_none() {
          *own = Some(Built::new(&c.p.rules, &c.p.tops, true, Probe::No, c.p.pol));
        }
        own.as_ref().unwrap()
      } else {
        b = Built::new(&c.p.rules, &c.p.tops, true, Probe::No, c.p.pol);
        &b
      };
      harness(|| live().reset_calls(TASK.with(|t| t.get())));
      match b.tops[*g as usize].run(&ParseState::new(s, 0)) {
        ParseResult::Success { value, length } => format!("ok {:x} {}", value.h, length),
        ParseResult::Failure { error, committed_status } => format!("failure {} {:?}", committed_status.is_committed(), error),
      }
    }
  }
}
fn conf(r: Result<oni_comb_hocon_rs::model::Config, oni_comb_hocon_rs::model::ConfigError>) -> String {
  match r {
    Ok(c) => format!("{:?}", hocon::canon(c.to_config_value())),
    Err(e) => format!("error {:?}", e),
  }
}
fn run_op(id: (usize, usize), op: &Op, own: &mut Option<Built>) -> String {
  let t = TASK.with(|t| t.get());
  let c = cx();
  c.tape.insert(t, (0, 0));
  let l = live();
  l.reset_calls(t);
  l.panics.retain(|x| x.0 as i32 != t);
  if let Op::Own(_, _, _, Some(n)) = op {
    l.panics.push((t as u8, *n));
  }
  frames().push(Frame::default());
  world().begin_op((id.0 * 1024 + id.1) as u32);
  c.active += 1;
  c.overlap += (c.active > 1) as u64;
  let r = sut_catch(|| perform(c, id, op, own));
  let c = cx();
  c.active -= 1;
  world().end_op();
  frames().pop();
  let (n, h) = c.tape[&t];
  let s = match r {
    Ok(s) => {
      c.errors += s.starts_with("error") as u64;
      s
    }
    Err(Panic::Thrown(n)) => {
      c.panics += 1;
      format!("thrown {}", n)
    }
    Err(Panic::Own(m)) => {
      c.panics += 1;
      format!("panic {}", m)
    }
  };
  let mut cut: String = s.chars().take(400).collect();
  if cut.len() < s.len() {
    cut += &format!("... {} {:x}", s.len(), hash_str(&s));
  }
  format!("{} [{} records {:x}]", cut, n, h)
}
fn rewind() {
  let w = world();
  w.ops.clear();
  w.chunk_ix = 0;
}
fn run(v: &Value) -> RunOut {
  let p: Plan = match serde_json::from_value(v.clone()) {
    Ok(p) => p,
    Err(_) => return RunOut::default(),
  };
  let op_ok = |o: &Op| match o {
    Op::Load(f) => hocon::name_ok(f),
    Op::Str(c) => hocon::content_ok(c) && !matches!(c, Content::Inc(..)) && std::str::from_utf8(&hocon::bytes_of(c)).is_ok(),
    Op::Own(g, ..) => (*g as usize) < p.tops.len(),
    Op::Fire(_, m, n) | Op::Cron(_, m, n, _) => m.abs() < 60_000_000 && *n <= 8,
    Op::Uri(t) => t.len() < 4000,
  };
  if p.threads.is_empty()
    || p.threads.len() > 6
    || p.threads.iter().any(|t| t.len() > 300 || !t.iter().all(op_ok))
    || !valid(&p.rules, &p.tops)
    || !p.files.iter().all(|(n, c)| hocon::name_ok(n) && hocon::content_ok(c))
    || p.env.iter().any(|(k, v)| k.contains('\0') || k.contains('=') || k.is_empty() || v.contains('\0'))
    || p.scheds.len() > 4
    || p.threads.iter().flatten().any(|o| matches!(o, Op::Cron(t, _, n, _) if *n > 0 && !(quick(t) && few(t, *n))))
    || p.threads.iter().flatten().any(|o| matches!(o, Op::Fire(k, _, n) if p.scheds.get(*k as usize).map_or(false, |s| !few(s, *n))))
    || !p.scheds.iter().all(|s| quick(s))
  {
    return RunOut::default();
  }
  begin(p.hash_seed);
  let w = world();
  w.env.clear();
  w.env_ptrs.clear();
  w.faults = p.faults.clone();
  // one cap for all reads: the n-th read of an operation is the same whatever other threads read
  w.chunks = p.chunks.iter().copied().take(1).collect();
  for (n, c) in &p.files {
    w.put_new(n, &hocon::bytes_of(c));
  }
  for (k, v) in &p.env {
    w.set_env(k, Some(v));
  }
  w.sync_environ();
  let mut inputs = BTreeMap::new();
  let mut steps = 0;
  for (t, ops) in p.threads.iter().enumerate() {
    for (i, o) in ops.iter().enumerate() {
      if let Op::Own(g, s, ..) = o {
        let s: &'static [char] = Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice());
        let mut m = Model { rules: &p.rules, inp: s, pol: p.pol, fuel: 12_000, rejected: 0 };
        if let Err(No::Fuel) = m.ev(&p.tops[*g as usize], 0) {
          return RunOut::default();
        }
        inputs.insert((t, i), s);
      }
      steps += 1;
    }
  }
  unsafe {
    CX = Box::into_raw(Box::new(Cx {
      p: p.clone(),
      inputs,
      scheds: vec![],
      want: BTreeMap::new(),
      tape: BTreeMap::new(),
      out: RunOut::default(),
      records: 0,
      panics: 0,
      errors: 0,
      overlap: 0,
      active: 0,
    }));
  }
  let share = (&Which::<CronSchedule<Utc>>(PhantomData)).shareable();
  let prepare = |p: &Plan| {
    let _ = log::set_logger(&SINK);
    log::set_max_level(level(p.level));
    live().on = true;
    live().out = RunOut::default();
    if share {
      cx().scheds = p.scheds.iter().map(|s| sut(|| CronSchedule::<Utc>::new(s).ok())).collect();
    }
  };
  // alone
  let (mut allocs, mut last) = (0u64, 0u64);
  for (t, ops) in p.threads.iter().enumerate() {
    for (i, o) in ops.iter().enumerate() {
      if i > 0 && !matches!(o, Op::Load(_)) && format!("{:?}", o) == format!("{:?}", ops[i - 1]) {
        let w = cx().want[&(t, i - 1)].clone();
        allocs += last;
        cx().want.insert((t, i), w);
        continue;
      }
      let r = apart(|| {
        prepare(&p);
        TASK.with(|x| x.set(t as i32));
        let mut own = None;
        let s = run_op((t, i), o, &mut own);
        let _g = crate::alloc::nohook();
        format!("{}\n{}", crate::alloc::SUT_ALLOCS.load(Relaxed), s).into_bytes()
      });
      let Some(r) = r else { return RunOut::default() };
      let r = String::from_utf8_lossy(&r).to_string();
      let (n, s) = r.split_once('\n').unwrap();
      last = n.parse::<u64>().unwrap_or(0);
      allocs += last;
      cx().want.insert((t, i), s.to_string());
    }
  }
  if allocs > 700_000 {
    return RunOut::default();
  }
  // together
  TASK.with(|x| x.set(0));
  prepare(&p);
  rewind();
  let tasks = p
    .threads
    .iter()
    .cloned()
    .enumerate()
    .map(|(t, ops)| -> Box<dyn FnOnce() + Send> {
      Box::new(move || {
        let mut own = None;
        for (i, o) in ops.iter().enumerate() {
          sched::yield_point(sched::YK_OP);
          if cx().out.violation.is_some() {
            return;
          }
          let got = run_op((t, i), o, &mut own);
          check((t, i), o, got, "");
        }
        sut(|| drop(own));
      })
    })
    .collect();
  crate::alloc::PREEMPT.store(true, Relaxed);
  with_blocks(&p.at, || sched::run_threads(tasks, &p.switches));
  crate::alloc::PREEMPT.store(false, Relaxed);
  // afterwards
  rewind();
  if cx().out.violation.is_none() {
    for (t, ops) in p.threads.iter().enumerate() {
      TASK.with(|x| x.set(t as i32));
      for (i, o) in ops.iter().enumerate() {
        let got = run_op((t, i), o, &mut None);
        check((t, i), o, got, " (afterwards)");
      }
    }
  }
  TASK.with(|x| x.set(0));
  let c = cx();
  let l = live();
  l.on = false;
  let mut out = std::mem::take(&mut c.out);
  for (k, v) in &l.out.faults {
    out.fault(k, *v);
  }
  out.fault("thread:panicked", c.panics);
  out.fault("thread:error", c.errors);
  out.probe("operations", steps);
  out.probe("log-records", c.records);
  out.probe("operations-overlapping", c.overlap);
  let kinds: BTreeSet<_> = p.threads.iter().flatten().map(std::mem::discriminant).map(|d| hash_str(&format!("{:?}", d))).collect();
  out.probe("kinds", kinds.len() as u64);
  out.nontrivial = p.threads.len() > 1 && c.overlap > 0;
  let sh = hash_str(&format!("{:?}", p.threads));
  finish(&mut out, sh);
  out
}
fn check(id: (usize, usize), o: &Op, got: String, when: &str) {
  let c = cx();
  c.out.observe(&got);
  // Which call is the n-th in a parser used before depends on what it kept (a lazily
  // built part): such an operation may end early anywhere, only what it leaves is judged.
  let early = matches!(o, Op::Own(_, _, true, Some(_))) && !got.starts_with("panic");
  if got != c.want[&id] && !early {
    let text: String = format!("{:?}", o).chars().take(300).collect();
    let class = if got.starts_with("panic") { "panic" } else { "influenced" };
    c.out.violate(class, format!("thread {} operation {}{}: {}: {}; alone: {}", id.0, id.1, when, text, got, c.want[&id]));
  }
}

// ------------------------------------------------------------------ generation
/// A schedule that fires soon: days, months and weekdays are hardly restricted.
fn quick(s: &str) -> bool {
  let f: Vec<&str> = s.split(' ').collect();
  f.len() == 5 && f[3] == "*" && (f[2] == "*" || f[4] == "*")
}
/// Fire times asked of a schedule of days are few: each may be a month away.
fn few(s: &str, n: u8) -> bool {
  n <= 1 || s.split(' ').nth(2) == Some("*")
}
fn gen_cron(r: &mut Rng) -> String {
  let mut fs = cron::gen_fields(r);
  if r.chance(65) {
    fs[2] = cron::Field::Any;
  } else {
    fs[4] = cron::Field::Any;
    if r.chance(50) {
      fs[2] = cron::Field::Per(*r.pick(&[5, 7, 10, 14, 15, 28, 29, 30, 31]));
    }
  }
  fs[3] = cron::Field::Any;
  let style = r.next() % 1000;
  cron::render(&fs, style)
}
pub fn gen_uri(r: &mut Rng) -> String {
  let word = |r: &mut Rng| -> String {
    let n = 1 + r.usize(6);
    (0..n).map(|_| *r.pick(&['a', 'b', 'z', 'K', '0', '9', '-', '_', '~'])).collect()
  };
  let mut s = String::new();
  s += *r.pick(&["http", "https", "ftp", "x", "a+b-c.d1", "urn"]);
  s += ":";
  if r.chance(75) {
    s += "//";
    if r.chance(35) {
      s += &word(r);
      if r.chance(60) {
        s += ":";
        s += &word(r);
      }
      s += "@";
    }
    s += &match r.below(8) {
      0 => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(10), r.below(256)),
      1 => {
        // all the places an abbreviation can stand in, with and without an address of four numbers at the end
        let mut g: Vec<String> = (0..8).map(|_| format!("{:x}", r.below(65536))).collect();
        if r.chance(40) {
          g.truncate(6);
          g.push(format!("{}.{}.{}.{}", r.below(256), r.below(10), r.below(256), r.below(256)));
        }
        if r.chance(85) {
          let from = r.usize(g.len() + 1);
          let to = (from + 1 + r.usize(g.len())).min(g.len());
          format!("[{}::{}]", g[..from].join(":"), g[to..].join(":"))
        } else {
          format!("[{}]", g.join(":"))
        }
      }
      2 => "[2001:db8:85a3:8d3:1319:8a2e:370:7348]".into(),
      3 => format!("[v{:x}.{}]", r.below(16), word(r)),
      4 => "localhost".into(),
      5 => format!("{}%41{}", word(r), word(r)),
      _ => format!("{}.{}", word(r), word(r)),
    };
    if r.chance(40) {
      s += &format!(":{}", r.below(65536));
    }
  }
  for _ in 0..r.usize(5) {
    s += "/";
    if r.chance(85) {
      s += &word(r);
    }
    if r.chance(15) {
      s += *r.pick(&["%20", ";x=1", ",", ":", "@", "$&'()*+"]);
    }
  }
  if r.chance(45) {
    s += "?";
    for i in 0..r.usize(5) {
      if i > 0 {
        s += "&";
      }
      s += &word(r);
      if r.chance(80) {
        s += &format!("={}", word(r));
      }
    }
  }
  if r.chance(30) {
    s += &format!("#{}", word(r));
  }
  damage(r, s)
}
fn damage(r: &mut Rng, s: String) -> String {
  if !r.chance(15) {
    return s;
  }
  let mut v: Vec<char> = s.chars().collect();
  let i = r.usize(v.len());
  match r.below(3) {
    0 => v.truncate(i),
    1 => v[i] = *r.pick(&[' ', '%', ':', '[', '/', '\u{e9}', '#']),
    _ => v.insert(i, *r.pick(&[' ', '%', ':', ']', '/', '?', '@'])),
  }
  v.into_iter().collect()
}
fn gen(r: &mut Rng, tier: Tier) -> Value {
  let g = hocon::cfg(15, 2);
  let mut files = vec![];
  let nf = r.usize(4);
  for f in hocon::FILES.iter().take(nf) {
    let c = if r.chance(20) && nf > 1 {
      Content::Inc((0..1 + r.usize(2)).map(|_| hocon::FILES[r.usize(nf)].to_string()).collect(), r.below(5) as u8)
    } else {
      hocon::gen_content(r, &g)
    };
    files.push((f.to_string(), c));
  }
  let scheds: Vec<String> = (0..r.usize(3)).map(|_| gen_cron(r)).collect();
  let rn = if r.chance(40) { 1 + r.below(2) as u8 } else { 0 };
  let mut gn = Gen { r, c: GenCfg { rules: rn, bytes: false, cache: 10, log: 6, regex: 8, user: 25 }, cb: 0, logs: 0 };
  let rules: Vec<G> = (0..rn).map(|i| gn.gen(2, true, i + 1)).collect();
  let tops: Vec<G> = (0..1 + gn.r.usize(2)).map(|_| gn.gen(3, false, 0)).collect();
  let pol = Policy { seed: r.next() >> 16, no: *r.pick(&[0u8, 10, 30]) };
  let nt = 2 + r.usize(if tier == Tier::Thorough { 4 } else { 3 });
  let own: Vec<String> = (0..2).map(|_| gen_input(r, &rules, &tops, false)).collect();
  let uris: Vec<String> = (0..3).map(|_| gen_uri(r)).collect();
  let crons: Vec<String> = (0..2).map(|_| gen_cron(r)).collect();
  // the mix of this run
  let w: Vec<u64> = (0..6).map(|_| if r.chance(45) { 0 } else { 1 + r.below(5) }).collect();
  let total: u64 = w.iter().sum();
  let mut threads: Vec<Vec<Op>> = vec![];
  for _ in 0..nt {
    let n = 1 + r.usize(4);
    let ops = (0..n)
      .map(|_| {
        let mut x = if total == 0 { 0 } else { r.below(total) };
        let mut k = 0;
        while total > 0 && x >= w[k] {
          x -= w[k];
          k += 1;
        }
        let start = 28_400_000 + r.range(-1_000_000, 1_000_000);
        let start = if r.chance(40) {
          // the last days of a month
          let (y, m) = (r.range(2010, 2030), r.range(1, 12));
          (cron::days_from_civil(y, m, 1) - 1 - r.range(0, 3)) * 1440 + r.range(0, 1439)
        } else {
          start
        };
        match k {
          0 => Op::Uri(if r.chance(60) { r.pick(&uris).clone() } else { gen_uri(r) }),
          1 => {
            if r.chance(20) {
              let t = gen_cron(r);
              Op::Cron(damage(r, t), start, 0, false)
            } else {
              let (t, n) = (r.pick(&crons).clone(), r.below(5) as u8);
              let n = if few(&t, n) { n } else { 1 };
              Op::Cron(t, start, n, r.chance(50))
            }
          }
          2 if !scheds.is_empty() => {
            let (k, n) = (r.usize(scheds.len()), 1 + r.below(5) as u8);
            Op::Fire(k as u8, start, if few(&scheds[k], n) { n } else { 1 })
          }
          3 => Op::Load(hocon::FILES[r.usize(nf + 1).min(4)].to_string()),
          4 => match hocon::gen_content(r, &g) {
            Content::Bytes(_) => Op::Uri(gen_uri(r)),
            c => Op::Str(c),
          },
          _ => Op::Own(
            r.usize(tops.len()) as u8,
            r.pick(&own).clone(),
            r.chance(50),
            if r.chance(20) { Some(r.below(12) as u32) } else { None },
          ),
        }
      })
      .collect();
    threads.push(ops);
  }
  // one operation many times over
  if r.chance(2) {
    let t = r.usize(nt);
    let i = r.usize(threads[t].len());
    let o = threads[t][i].clone();
    if !matches!(o, Op::Load(_) | Op::Str(_)) {
      let n = 40 + r.usize(160);
      threads[t].splice(i..i, std::iter::repeat(o).take(n));
    }
  }
  let mut faults = vec![];
  for (t, ops) in threads.iter().enumerate() {
    for (i, o) in ops.iter().enumerate() {
      if matches!(o, Op::Load(_)) && r.chance(30) {
        let id = (t * 1024 + i) as u32;
        faults.push(if r.chance(50) { hocon::hard_fault(r, id, 3) } else { hocon::soft_fault(r, id) });
      }
    }
  }
  let gap = *r.pick(&[10u64, 200, 3000]);
  let n = 2 + r.usize(60);
  serde_json::to_value(Plan {
    hash_seed: r.next() % 1000,
    rules,
    tops,
    pol,
    scheds,
    files,
    env: hocon::gen_env(r),
    faults,
    chunks: if r.chance(30) { hocon::gen_chunks(r) } else { vec![] },
    level: *r.pick(&[0, 0, 3, 4, 4]),
    threads,
    switches: gen_switches(r, n, gap),
    at: gen_at(r),
  })
  .unwrap()
}
pub fn scenarios() -> Vec<Scenario> {
  vec![Scenario {
    id: "X01",
    gen,
    run,
    runs_quick: 20_000,
    rule: "operations of several threads overlapped",
    real: &["parser, uri, crond and hocon crates on real OS threads", "std locks and thread-locals"],
    stub: &[
      "scheduler of threads: exactly one runs; pre-emption at basic blocks, allocations, libc calls, environment reads, log records, user code, waits for locks and their release",
      "file system, environment, hash-table seeds (simulator)",
      "log sink and user code (harness)",
    ],
    assumptions: &["sequentially consistent memory; pre-emption inside a basic block, or inside std between two calls, is not explored"],
  }]
}
