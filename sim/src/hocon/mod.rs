//! H01-H09: configuration loads against a simulated file system and environment.
pub mod doc;
use crate::cov::{gen_at, with_blocks, At};
use crate::cron::gen_switches;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{RunOut, Scenario, Tier};
use crate::sched::{self, Switches};
use crate::sys::{world, IoFault, TASK};
use crate::util::{begin, finish, sut_catch, Panic};
use doc::*;
use oni_comb_hocon_rs::model::{Config, ConfigError, ConfigFactory, ConfigValue};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ plans
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mutn {
  Cut(u32),
  Zero(u32, u32),
  Flip(u32, u8),
  /// A block keeps bytes of the older content: from, length, shift.
  Old(u32, u32, u32),
  Ins(u32, u8),
  Dup(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
  Doc(Doc),
  Inc(Vec<String>, u8),
  /// Malformed text.
  Bad(u8, Doc),
  Bytes(Vec<u8>),
  Text(String),
  Torn(Doc, Vec<Mutn>),
  Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
  /// factory, file
  Load(u8, String),
  /// factory, document
  Parse(u8, Content),
  /// file, content, how: 0 rename, 1 in place, 2..=4 crash after that many writer steps
  Write(String, Content, u8),
  Remove(String),
  SetEnv(String, Option<String>),
  /// All configurations of this task still answer as when they were loaded.
  Recheck,
  Tick(u32),
  /// Forget the n-th configuration.
  Forget(u8),
  /// factory, file, how often: loads whose results are thrown away.
  Storm(u8, String, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
  pub hash_seed: u64,
  /// Real OS threads instead of coroutines.
  #[serde(default)]
  pub os_threads: bool,
  pub files: Vec<(String, Content)>,
  pub dirs: Vec<String>,
  pub env: Vec<(String, String)>,
  pub threads: Vec<Vec<Op>>,
  pub switches: Switches,
  /// Switches of OS threads at basic blocks.
  #[serde(default)]
  pub at: Vec<At>,
  pub faults: Vec<IoFault>,
  pub chunks: Vec<u32>,
  pub size_lie: u32,
}

const BAD: &[&str] =
  &["{ x = 1", "a = [1", "= 1", "a = \"unclosed", "{ a = 1 } }", "a", "[1,2", "{,}", "a {", "{ a = [1 }", "]", "a = 'x", "\0", "\0\0\0\0", "\u{feff}", "}", "\u{1a}"];
fn bad_text(n: u8, d: &Doc) -> Vec<u8> {
  // a valid beginning followed by something no document may contain there
  let mut t = if n as usize >= BAD.len() { render(&Doc { form: 1, ..d.clone() }) } else { vec![] };
  t.push(b'\n');
  t.extend_from_slice(BAD[n as usize % BAD.len()].as_bytes());
  t
}
fn mutate(mut t: Vec<u8>, d: &Doc, ms: &[Mutn]) -> Vec<u8> {
  let old = render(&Doc { style: d.style ^ 0x55, ..d.clone() });
  for m in ms {
    let n = t.len();
    if n == 0 {
      break;
    }
    let at = |x: u32| x as usize % (n + 1);
    match m {
      Mutn::Cut(p) => t.truncate(at(*p)),
      Mutn::Zero(p, l) => {
        let a = at(*p);
        let e = (a + *l as usize % 5000).min(n);
        t[a..e].iter_mut().for_each(|b| *b = 0);
      }
      Mutn::Flip(p, b) => {
        let a = *p as usize % n;
        t[a] ^= 1 << (b % 8);
      }
      Mutn::Old(p, l, s) => {
        let a = at(*p);
        for i in a..(a + *l as usize % 600).min(n) {
          if !old.is_empty() {
            t[i] = old[(i + *s as usize) % old.len()];
          }
        }
      }
      Mutn::Ins(p, b) => t.insert(at(*p), *b),
      Mutn::Dup(p, l) => {
        let a = at(*p);
        let e = (a + *l as usize % 200).min(n);
        let x = t[a..e].to_vec();
        t.splice(a..a, x);
      }
    }
  }
  t
}
pub fn bytes_of(c: &Content) -> Vec<u8> {
  match c {
    Content::Doc(d) => render(d),
    Content::Inc(v, sep) => {
      let sep = ["", "\n", " ", "\r\n\r\n", "\n# next\n"][*sep as usize % 5];
      v.iter().map(|n| format!("include file(\"{}\")", n)).collect::<Vec<_>>().join(sep).into_bytes()
    }
    Content::Bad(n, d) => bad_text(*n, d),
    Content::Bytes(b) => b.clone(),
    Content::Text(t) => t.as_bytes().to_vec(),
    Content::Torn(d, m) => mutate(render(d), d, m),
    Content::Empty => vec![],
  }
}

// ------------------------------------------------------------------ what a configuration answers
/// Every way to ask for a value gives the same answer.
fn accessors(v: &ConfigValue) -> Option<String> {
  let n = [
    v.is_null(),
    v.as_bool().is_some(),
    v.as_string().is_some(),
    v.as_number().is_some(),
    v.as_config_number_value().is_some(),
    v.as_config_duration_value().is_some(),
    v.as_array().is_some(),
    v.as_config_array_value().is_some(),
    v.as_object().is_some(),
    v.as_config_object_value().is_some(),
  ];
  let (kind, ok) = match v {
    ConfigValue::Null => (0, true),
    ConfigValue::Bool(b) => (1, v.as_bool() == Some(*b)),
    ConfigValue::String(s) => (2, v.as_string() == Some(s)),
    ConfigValue::Number(d) => {
      let t = d.as_decimal().trunc().to_string().parse::<i128>();
      let t = t.unwrap_or(0);
      let ok = v.as_number() == Some(d.as_decimal())
        && d.to_i128() == Some(t)
        && d.to_i64() == i64::try_from(t).ok()
        && d.to_i32() == i32::try_from(t).ok()
        && d.to_i16() == i16::try_from(t).ok()
        && d.to_i8() == i8::try_from(t).ok()
        && (t < 1 || (d.to_u128(), d.to_u64(), d.to_u32()) == (Some(t as u128), u64::try_from(t).ok(), u32::try_from(t).ok()))
        && (t < 1 || (d.to_u16(), d.to_u8()) == (u16::try_from(t).ok(), u8::try_from(t).ok()));
      (3, ok)
    }
    ConfigValue::Duration(d) => {
      let (a, b) = (v.as_duration(), v.as_std_duration());
      (5, a == d.to_duration().ok() && b == d.to_std_duration().ok() && (a.is_none() || a.and_then(|a| a.to_std().ok()) == b))
    }
    ConfigValue::Array(a) => (6, v.as_array().map(|x| x.len()) == Some(a.as_array().len())),
    ConfigValue::Object(o) => (8, v.as_object().map(|x| x.len()) == Some(o.as_map().len())),
    _ => (10, true),
  };
  let same = match kind {
    3 | 6 | 8 => n.iter().enumerate().all(|(i, x)| *x == (i == kind || i == kind + 1)),
    _ => n.iter().enumerate().all(|(i, x)| *x == (i == kind)),
  };
  if ok && same {
    None
  } else {
    Some(format!("accessors disagree on {:?}", v))
  }
}
pub fn canon(v: &ConfigValue) -> Cv {
  if let Some(e) = accessors(v.latest()) {
    return Cv::Other(e);
  }
  match v.latest() {
    ConfigValue::Null => Cv::Null,
    ConfigValue::Bool(b) => Cv::B(*b),
    ConfigValue::String(s) => Cv::S(s.clone()),
    ConfigValue::Number(n) => Cv::N(norm_printed(&n.as_decimal().normalize().to_string())),
    ConfigValue::Duration(d) => match (d.to_duration(), d.to_std_duration()) {
      (Ok(d), _) => Cv::D(d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128),
      (_, Ok(d)) => Cv::D(d.as_nanos() as i128),
      (Err(e), _) => Cv::Other(format!("duration: {}", e)),
    },
    ConfigValue::Array(a) => Cv::A(a.as_array().iter().map(canon).collect()),
    ConfigValue::Object(o) => Cv::O(o.as_map().iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
    x => Cv::Other(format!("unresolved {:?}", std::mem::discriminant(x))),
  }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ErrK {
  NotFound,
  Read,
  Parse,
}
pub fn err_kind(e: &ConfigError) -> ErrK {
  match e {
    ConfigError::FileNotFoundError => ErrK::NotFound,
    ConfigError::FileReadError => ErrK::Read,
    ConfigError::ParseError(_) => ErrK::Parse,
  }
}

// ------------------------------------------------------------------ the run
#[derive(Clone, Copy, PartialEq)]
struct Focus {
  /// Compare outcomes with the model.
  outcome: bool,
  /// Rechecks of earlier configurations.
  snapshot: bool,
  traces: bool,
  panics: bool,
}
struct Ctx {
  plan: Plan,
  focus: Focus,
  out: RunOut,
  /// Logical time of changes.
  now: u64,
  hist: BTreeMap<String, Vec<(u64, Option<Content>)>>,
  env_hist: BTreeMap<String, Vec<(u64, Option<String>)>>,
  active: u32,
  invalid: bool,
  loads: u64,
  ok_loads: u64,
  err_loads: u64,
  checked: u64,
  unchecked: u64,
  shape: u64,
  torn: u64,
}
impl Ctx {
  fn change_file(&mut self, f: &str, c: Option<Content>) {
    self.now += 1;
    let n = self.now;
    self.hist.entry(f.to_string()).or_insert_with(|| vec![(0, None)]).push((n, c));
  }
  fn change_env(&mut self, k: &str, v: Option<String>) {
    self.now += 1;
    let n = self.now;
    self.env_hist.entry(k.to_string()).or_insert_with(|| vec![(0, None)]).push((n, v));
  }
  fn window<T: Clone>(h: Option<&Vec<(u64, Option<T>)>>, t0: u64, t1: u64) -> Vec<Option<T>> {
    match h {
      None => vec![None],
      Some(h) => {
        let mut v = vec![];
        let base = h.iter().rposition(|x| x.0 <= t0).unwrap_or(0);
        v.push(h[base].1.clone());
        v.extend(h[base + 1..].iter().filter(|x| x.0 <= t1).map(|x| x.1.clone()));
        v
      }
    }
  }
}
/// An outcome the model allows.
enum Mo {
  Ok(BTreeMap<String, Alts>),
  Err(ErrK),
  ErrAny,
}
enum Unknown {
  Invalid,
  Many,
}
impl From<Invalid> for Unknown {
  fn from(_: Invalid) -> Self {
    Unknown::Invalid
  }
}
struct Model<'a> {
  c: &'a Ctx,
  t0: u64,
  t1: u64,
  work: u32,
}
impl<'a> Model<'a> {
  fn content(&mut self, c: &Content, stack: &[String]) -> Result<Vec<Mo>, Unknown> {
    let deep = stack.len() > 1;
    let err = |k: ErrK| if deep { Mo::ErrAny } else { Mo::Err(k) };
    self.work += 1;
    if self.work > 400 {
      return Err(Unknown::Many);
    }
    match c {
      Content::Empty => Ok(vec![Mo::Ok(BTreeMap::new())]),
      Content::Bad(..) => Ok(vec![err(ErrK::Parse)]),
      Content::Text(_) | Content::Torn(..) => Err(Unknown::Invalid),
      Content::Bytes(b) => {
        if std::str::from_utf8(b).is_ok() {
          return Err(Unknown::Invalid);
        }
        Ok(vec![err(ErrK::Read)])
      }
      Content::Doc(d) => {
        let (h, t0, t1) = (&self.c.env_hist, self.t0, self.t1);
        let env = |n: &str| {
          let mut v = Ctx::window(h.get(n), t0, t1);
          v.dedup();
          v
        };
        let (m, may, must) = eval(d, &env)?;
        let mut v = vec![];
        if !must {
          v.push(Mo::Ok(m));
        }
        if may {
          v.push(err(ErrK::Parse));
        }
        Ok(v)
      }
      Content::Inc(names, _) => {
        if names.is_empty() || !names.iter().all(|n| path_like(n)) || stack.len() > 70 {
          return Err(Unknown::Invalid);
        }
        let mut errs = false;
        let mut acc = vec![BTreeMap::new()];
        for n in names {
          let subs = self.file(n, stack)?;
          let mut next = vec![];
          for s in &subs {
            match s {
              Mo::Ok(m) => {
                for a in &acc {
                  let mut a = a.clone();
                  merge(&mut a, m)?;
                  next.push(a);
                }
              }
              _ => errs = true,
            }
          }
          if next.len() > 64 {
            return Err(Unknown::Many);
          }
          acc = next;
        }
        let mut v: Vec<Mo> = acc.into_iter().map(Mo::Ok).collect();
        if errs {
          v.push(Mo::ErrAny);
        }
        Ok(v)
      }
    }
  }
  fn file(&mut self, name: &str, stack: &[String]) -> Result<Vec<Mo>, Unknown> {
    let deep = !stack.is_empty();
    let err = |k: ErrK| if deep { Mo::ErrAny } else { Mo::Err(k) };
    if stack.iter().any(|s| s == name) {
      return Ok(vec![Mo::ErrAny]);
    }
    if self.c.plan.dirs.iter().any(|d| d == name) {
      return Ok(vec![err(ErrK::Read)]);
    }
    let mut st = stack.to_vec();
    st.push(name.to_string());
    let mut v = vec![];
    for c in Ctx::window(self.c.hist.get(name), self.t0, self.t1) {
      match c {
        None => v.push(err(ErrK::NotFound)),
        Some(c) => v.extend(self.content(&c, &st)?),
      }
    }
    Ok(v)
  }
}
/// Names a load of `file` may touch, over all versions that ever existed.
fn closure(c: &Ctx, file: &str) -> BTreeSet<String> {
  let mut seen = BTreeSet::new();
  let mut todo = vec![file.to_string()];
  while let Some(f) = todo.pop() {
    if !seen.insert(f.clone()) {
      continue;
    }
    for (_, v) in c.hist.get(&f).map(|h| h.as_slice()).unwrap_or(&[]) {
      let Some(v) = v else { continue };
      if let Content::Inc(n, _) = v {
        todo.extend(n.iter().cloned());
      } else if matches!(v, Content::Text(_) | Content::Torn(..)) {
        // whatever stands in parentheses and quotes may be meant as an include
        let t = String::from_utf8_lossy(&bytes_of(v)).to_string();
        for part in t.split("(\"").skip(1) {
          todo.push(part.split('"').next().unwrap_or("").to_string());
        }
      }
    }
  }
  seen
}

struct Kept {
  config: Config,
  canon: Cv,
  what: String,
}
fn ask(k: &Kept, all: bool) -> Option<String> {
  let c = canon(k.config.to_config_value());
  if c != k.canon {
    return Some(format!("{}: was {} and is {}", k.what, k.canon.short(), c.short()));
  }
  let ps = ask_paths(&k.canon);
  let step = if all || ps.len() < 12 { 1 } else { ps.len() / 12 };
  for (p, want) in ps.iter().step_by(step) {
    let got = k.config.get_value(p).map(canon);
    if &got != want || k.config.has_path(p) != want.is_some() {
      return Some(format!(
        "{}: at {:?} found {} (has_path {}) instead of {}",
        k.what,
        p,
        got.map(|g| g.short()).unwrap_or("nothing".into()),
        k.config.has_path(p),
        want.as_ref().map(|g| g.short()).unwrap_or("nothing".into())
      ));
    }
  }
  None
}

/// A pointer handed to every task: only the task that holds the baton uses it.
#[derive(Clone, Copy)]
struct Shared(*mut Ctx);
unsafe impl Send for Shared {}
impl Shared {
  fn get(&self) -> &'static mut Ctx {
    unsafe { &mut *self.0 }
  }
}

pub fn alloc_budget(bytes: usize) {
  use std::sync::atomic::Ordering::*;
  let used = crate::alloc::SUT_ALLOCS.load(Relaxed);
  crate::alloc::ALLOC_BUDGET.store(used + 3_000_000 + 2_000 * bytes as u64, Relaxed);
}

fn task(sh: Shared, me: usize, ops: Vec<Op>) {
  let mut factories: Vec<ConfigFactory> = vec![];
  let mut kept: Vec<Kept> = vec![];
  let c = sh.get();
  for (i, op) in ops.iter().enumerate() {
    sched::yield_point(sched::YK_OP);
    if c.out.violation.is_some() || c.invalid {
      return;
    }
    match op {
      Op::Load(f, file) => {
        let f = *f as usize % 4;
        while factories.len() <= f {
          factories.push(ConfigFactory::new());
        }
        let opid = (me * 64 + i) as u32;
        let what = format!("task {} op {} load {:?}", me, i, file);
        load(sh, &mut factories[f], file, opid, what, &mut kept);
      }
      Op::Storm(f, file, n) => {
        let f = *f as usize % 4;
        while factories.len() <= f {
          factories.push(ConfigFactory::new());
        }
        let opid = (me * 64 + i) as u32;
        let what = format!("task {} op {} loads of {:?}", me, i, file);
        storm(sh, &mut factories[f], file, *n, opid, what);
      }
      Op::Parse(f, content) => {
        let f = *f as usize % 4;
        while factories.len() <= f {
          factories.push(ConfigFactory::new());
        }
        let opid = (me * 64 + i) as u32;
        let what = format!("task {} op {} parse", me, i);
        parse(sh, &factories[f], content, opid, what, &mut kept);
      }
      Op::Write(file, content, how) => write(sh, me, file, content, *how),
      Op::Remove(file) => {
        world().remove(file);
        world().hit("fs:remove");
        c.change_file(file, None);
      }
      Op::SetEnv(k, v) => {
        if !path_like(k) || v.as_ref().map_or(false, |v| v.contains('\0')) {
          c.invalid = true;
          return;
        }
        world().set_env(k, v.as_deref());
        world().hit(if v.is_some() { "env:set" } else { "env:unset" });
        c.change_env(k, v.clone());
      }
      Op::Recheck => {
        for k in &kept {
          if let Some(e) = ask(k, false) {
            if c.focus.snapshot {
              c.out.violate("snapshot", e);
            }
            return;
          }
        }
        c.out.probe("rechecks", kept.len() as u64);
      }
      Op::Tick(s) => {
        world().clock_ns += *s as i128 * 1_000_000_000;
        world().hit("clock:advance");
      }
      Op::Forget(n) => {
        if !kept.is_empty() {
          let n = *n as usize % kept.len();
          kept.remove(n);
        }
      }
    }
  }
  for k in &kept {
    if c.focus.snapshot {
      if let Some(e) = ask(k, false) {
        c.out.violate("snapshot", format!("at the end: {}", e));
        break;
      }
    }
  }
}
fn write(sh: Shared, me: usize, file: &str, content: &Content, how: u8) {
  let c = sh.get();
  let data = bytes_of(content);
  if how == 1 && c.active == 0 {
    world().put_in_place(file, &data);
    world().hit("fs:overwrite");
    c.change_file(file, Some(content.clone()));
    return;
  }
  let tmp = format!("{}.tmp{}", file, me);
  world().remove(&tmp);
  let steps = if how >= 2 { (how - 2) as usize % 3 } else { 3 };
  for s in 0..3 {
    if s >= steps {
      world().hit("crash:writer");
      return;
    }
    match s {
      0 => {
        world().put_new(&tmp, &data[..data.len() / 2]);
      }
      1 => {
        world().put_new(&tmp, &data);
      }
      _ => {
        let w = world();
        if let Some(ix) = w.files.remove(&tmp) {
          w.files.insert(file.to_string(), ix);
          w.hit("fs:rename");
          w.event(&format!("rename {}", file));
        }
        c.change_file(file, Some(content.clone()));
      }
    }
    sched::yield_point(sched::YK_OP);
  }
}
enum Got {
  Ok(Cv),
  Err(ErrK, String),
}
fn load(sh: Shared, f: &mut ConfigFactory, file: &str, opid: u32, what: String, kept: &mut Vec<Kept>) {
  let c = sh.get();
  let t0 = c.now;
  let env0 = world().env.clone();
  let _ = env0;
  c.active += 1;
  c.loads += 1;
  world().begin_op(opid);
  let r = sut_catch(|| f.load_from_file(file));
  world().end_op();
  c.active -= 1;
  let t1 = c.now;
  if c.out.violation.is_some() {
    return;
  }
  let got = took(c, r, &what, kept);
  traces(c, opid, Some(file), &what);
  let Some(got) = got else { return };
  if !c.focus.outcome {
    return;
  }
  let mo = {
    let mut m = Model { c, t0, t1, work: 0 };
    m.file(file, &[])
  };
  judge(c, mo, got, opid, Some(file), &what);
}
fn storm(sh: Shared, f: &mut ConfigFactory, file: &str, n: u16, opid: u32, what: String) {
  let c = sh.get();
  let size: usize = world().inodes.iter().map(|i| i.data.len() + 200).sum();
  let n = (n as usize).min(300).min(1 + 400_000 / (size + 1));
  c.active += 1;
  world().begin_op(opid);
  let work = || crate::alloc::SUT_ALLOCS.load(std::sync::atomic::Ordering::Relaxed) + 4 * world().calls;
  let before = work();
  for k in 0..n {
    if work() > before + 300_000 {
      break;
    }
    c.loads += 1;
    c.out.fault("load:storm", 1);
    match sut_catch(|| f.load_from_file(file)) {
      Err(Panic::Own(m)) if c.focus.panics => {
        c.out.violate("panic", format!("{}: load {} panicked: {}", what, k, m));
        break;
      }
      Ok(Ok(_)) => c.ok_loads += 1,
      _ => c.err_loads += 1,
    }
  }
  world().end_op();
  c.active -= 1;
  traces(c, opid, Some(file), &what);
}
fn parse(sh: Shared, f: &ConfigFactory, content: &Content, opid: u32, what: String, kept: &mut Vec<Kept>) {
  let c = sh.get();
  let Ok(text) = String::from_utf8(bytes_of(content)) else {
    c.invalid = true;
    return;
  };
  let t0 = c.now;
  c.active += 1;
  c.loads += 1;
  world().begin_op(opid);
  let r = sut_catch(|| f.parse_from_string(&text));
  world().end_op();
  c.active -= 1;
  let t1 = c.now;
  if c.out.violation.is_some() {
    return;
  }
  let got = took(c, r, &what, kept);
  traces(c, opid, None, &what);
  let Some(got) = got else { return };
  if !c.focus.outcome {
    return;
  }
  let mo = {
    let mut m = Model { c, t0, t1, work: 0 };
    m.content(content, &[])
  };
  judge(c, mo, got, opid, None, &what);
}
fn took(c: &mut Ctx, r: Result<Result<Config, ConfigError>, Panic>, what: &str, kept: &mut Vec<Kept>) -> Option<Got> {
  match r {
    Err(p) => {
      if c.focus.panics {
        let m = match p {
          Panic::Own(m) => m,
          Panic::Thrown(n) => format!("thrown {}", n),
        };
        c.out.violate("panic", format!("{}: panicked: {}", what, m));
      }
      None
    }
    Ok(Err(e)) => {
      c.err_loads += 1;
      let k = err_kind(&e);
      // an error must be renderable
      match sut_catch(|| format!("{:?}", e)) {
        Ok(s) => {
          c.out.observe(&s);
          Some(Got::Err(k, s))
        }
        Err(_) => {
          if c.focus.panics {
            c.out.violate("error-rendering", format!("{}: the error cannot be printed", what));
          }
          None
        }
      }
    }
    Ok(Ok(config)) => {
      c.ok_loads += 1;
      match sut_catch(|| canon(config.to_config_value())) {
        Ok(cv) => {
          c.out.observe(&format!("{:?}", cv));
          let k = Kept { config, canon: cv.clone(), what: what.to_string() };
          match sut_catch(|| ask(&k, true)) {
            Ok(None) => {}
            Ok(Some(e)) => {
              if c.focus.outcome || c.focus.panics {
                c.out.violate("lookup", format!("path and tree disagree: {}", e));
              }
            }
            Err(p) => {
              if c.focus.panics {
                c.out.violate("panic", format!("{}: asking the configuration panicked: {:?}", what, p));
              }
            }
          }
          if kept.len() < 12 {
            kept.push(k);
          }
          Some(Got::Ok(cv))
        }
        Err(p) => {
          // a duration that does not fit is a value, not a property of the load
          let _ = p;
          None
        }
      }
    }
  }
}
fn traces(c: &mut Ctx, opid: u32, file: Option<&str>, what: &str) {
  let w = world();
  if !c.focus.traces {
    return;
  }
  if let Some((fd, _)) = w.fds.iter().find(|(_, f)| f.op == opid) {
    c.out.violate("leak", format!("{}: handle #{} is still open when the load has returned", what, fd - 1_000_000));
  }
  if w.double_close > 0 {
    c.out.violate("double-close", format!("{}: a handle was closed twice or a foreign one was closed", what));
  }
  if let Some(s) = w.stray.first() {
    c.out.violate("trace", format!("{}: {}", what, s));
  }
  if w.out_bytes > 0 {
    c.out.violate("output", format!("{}: wrote {} bytes to standard output or error", what, w.out_bytes));
  }
  let opened = w.ops.get(opid as usize).map(|o| o.opened.clone()).unwrap_or_default();
  let allowed = match file {
    Some(f) => closure(c, f),
    None => BTreeSet::new(),
  };
  if let Some(o) = opened.iter().find(|o| !allowed.contains(*o)) {
    c.out.violate("opened", format!("{}: opened {:?}, which is not the file or one of its includes", what, o));
  }
}
fn judge(c: &mut Ctx, mo: Result<Vec<Mo>, Unknown>, got: Got, opid: u32, file: Option<&str>, what: &str) {
  let mut mo = match mo {
    Ok(m) => m,
    Err(Unknown::Invalid) => {
      c.invalid = true;
      return;
    }
    Err(Unknown::Many) => {
      c.unchecked += 1;
      return;
    }
  };
  let io = world().ops.get(opid as usize).cloned().unwrap_or_default();
  let single = match file {
    Some(f) => io.opened.iter().all(|o| o == f),
    None => true,
  };
  let mut injected = String::new();
  for (call, kind, path) in &io.fired {
    match call.as_str() {
      "open" if kind != "EINTR" => {
        mo.push(if single || Some(path.as_str()) == file { Mo::Err(ErrK::NotFound) } else { Mo::ErrAny });
        injected += &format!(" open:{}", kind);
      }
      "read" if kind != "EINTR" && kind != "SHORT" => {
        mo.push(if single { Mo::Err(ErrK::Read) } else { Mo::ErrAny });
        injected += &format!(" read:{}", kind);
      }
      "stat" | "seek" => {
        mo.push(Mo::ErrAny);
        injected += &format!(" {}:{}", call, kind);
      }
      _ => {}
    }
  }
  c.checked += 1;
  let ok = match &got {
    Got::Ok(Cv::O(v)) => mo.iter().any(|m| matches!(m, Mo::Ok(x) if match_obj(x, v))),
    Got::Ok(_) => false,
    Got::Err(k, _) => mo.iter().any(|m| match m {
      Mo::Err(x) => x == k,
      Mo::ErrAny => true,
      _ => false,
    }),
  };
  if !ok {
    let want: Vec<String> = mo
      .iter()
      .take(4)
      .map(|m| match m {
        Mo::Ok(x) => show(x),
        Mo::Err(k) => format!("error {:?}", k),
        Mo::ErrAny => "an error".into(),
      })
      .collect();
    if crate::util::VERBOSE.load(std::sync::atomic::Ordering::Relaxed) {
      for (n, h) in &c.hist {
        for x in h {
          if let Some(k) = &x.1 {
            eprintln!("{} at {}: {:?}", n, x.0, String::from_utf8_lossy(&bytes_of(k)));
          }
        }
      }
    }
    let (class, g) = match &got {
      Got::Ok(v) => ("wrong-config", v.short()),
      Got::Err(k, s) => {
        let only_err = !mo.iter().any(|m| matches!(m, Mo::Ok(_)));
        (if only_err { "error-kind" } else { "unexpected-error" }, format!("error {:?} ({})", k, s.chars().take(160).collect::<String>()))
      }
    };
    c.out.violate(
      class,
      format!(
        "{}: returned {} where only {} can be (window of {} version(s); faults:{})",
        what,
        g,
        want.join(" | "),
        mo.len(),
        if injected.is_empty() { " none".into() } else { injected }
      ),
    );
  }
}
/// A name that can be written in an include.
pub fn name_ok(n: &str) -> bool {
  path_like(n)
}
/// A name that a program can ask for.
fn top_ok(n: &str) -> bool {
  !n.is_empty() && n.len() < 600 && !n.contains('\0') && !n.split('/').any(|x| x == "." || x == "..") && !n.contains("//") && !n.ends_with('/')
}
pub fn content_ok(c: &Content) -> bool {
  match c {
    Content::Inc(n, _) => !n.is_empty() && n.iter().all(|x| name_ok(x)),
    Content::Bytes(b) => std::str::from_utf8(b).is_err(),
    Content::Text(t) => t.len() < 200_000,
    Content::Doc(d) => d.pad < 5_000_000 && tree_ok(d),
    Content::Bad(_, d) => d.pad < 5_000_000,
    Content::Torn(d, _) => d.pad == 0 && tree_ok(d) && d.fields.len() < 300,
    _ => true,
  }
}
fn tree_ok(d: &Doc) -> bool {
  eval(d, &|_| vec![Some("v".into()), None]).is_ok()
}
fn run_plan(v: &Value, focus: Focus, os_only: bool) -> (RunOut, bool) {
  let _ = os_only;
  let Ok(p) = serde_json::from_value::<Plan>(v.clone()) else { return (RunOut::default(), false) };
  let op_ok = |o: &Op| match o {
    Op::Load(_, f) | Op::Storm(_, f, _) => top_ok(f),
    Op::Parse(_, c) => content_ok(c) && !matches!(c, Content::Inc(..)),
    Op::Write(f, c, _) => top_ok(f) && content_ok(c),
    Op::Remove(f) => top_ok(f),
    _ => true,
  };
  if p.threads.is_empty()
    || p.threads.len() > 6
    || p.threads.iter().any(|t| t.len() > 60 || !t.iter().all(op_ok))
    || !p.files.iter().all(|(n, c)| top_ok(n) && content_ok(c))
    || p.files.iter().any(|(n, _)| p.dirs.contains(n))
    || (big(&p) && (p.os_threads || p.chunks.iter().any(|c| (1..1024).contains(c)) || p.threads.iter().flatten().any(|o| matches!(o, Op::Storm(..)))))
    || p.env.iter().any(|(k, v)| !path_like(k) || v.contains('\0'))
  {
    return (RunOut::default(), false);
  }
  begin(p.hash_seed);
  let w = world();
  w.env.clear();
  w.env_ptrs.clear();
  w.dirs = p.dirs.clone();
  w.faults = p.faults.clone();
  w.chunks = p.chunks.clone();
  w.size_lie = p.size_lie % 4;
  let ctx = Box::leak(Box::new(Ctx {
    plan: p.clone(),
    focus,
    out: RunOut::default(),
    now: 0,
    hist: BTreeMap::new(),
    env_hist: BTreeMap::new(),
    active: 0,
    invalid: false,
    loads: 0,
    ok_loads: 0,
    err_loads: 0,
    checked: 0,
    unchecked: 0,
    shape: 0,
    torn: 0,
  }));
  let mut total = 0;
  for (n, c) in &p.files {
    let b = bytes_of(c);
    total += b.len();
    w.put_new(n, &b);
    ctx.change_file(n, Some(c.clone()));
  }
  for (k, v) in &p.env {
    w.set_env(k, Some(v));
    ctx.change_env(k, Some(v.clone()));
  }
  w.sync_environ();
  for t in &p.threads {
    for o in t {
      if let Op::Write(_, c, _) | Op::Parse(_, c) = o {
        total += bytes_of(c).len();
      }
      if matches!(o, Op::Load(..) | Op::Parse(..)) {
        total += 2000;
      }
      if let Op::Storm(_, _, n) = o {
        total += 2000 * *n as usize;
      }
    }
  }
  alloc_budget(total * 20);
  let sh = Shared(ctx);
  if p.os_threads {
    let tasks = p
      .threads
      .iter()
      .cloned()
      .enumerate()
      .map(|(i, ops)| -> Box<dyn FnOnce() + Send> { Box::new(move || {
        let sh = sh;
        task(sh, i, ops)
      }) })
      .collect();
    with_blocks(&p.at, || sched::run_threads(tasks, &p.switches));
  } else {
    let tasks = p
      .threads
      .iter()
      .cloned()
      .enumerate()
      .map(|(i, ops)| -> Box<dyn FnOnce()> { Box::new(move || task(sh, i, ops)) })
      .collect();
    sched::run_coros(tasks, &p.switches, &[]);
  }
  TASK.with(|t| t.set(0));
  let c = sh.get();
  if c.invalid {
    return (RunOut::default(), false);
  }
  let mut out = std::mem::take(&mut c.out);
  out.probe("loads", c.loads);
  out.probe("loads:ok", c.ok_loads);
  out.probe("loads:error", c.err_loads);
  out.probe("outcomes-checked", c.checked);
  out.probe("outcomes-skipped(window too wide)", c.unchecked);
  out.nontrivial = c.loads > 0;
  out.sim_ms = ((w.clock_ns - 1_700_000_000_000_000_000) / 1_000_000) as u64 + world().calls;
  let shape = mix(hash_str(&serde_json::to_string(&(&p.files, &p.threads, &p.env)).unwrap()) ^ c.shape ^ c.torn);
  finish(&mut out, shape);
  (out, true)
}

// ------------------------------------------------------------------ generators
pub const FILES: &[&str] = &["app.conf", "base.conf", "x", "more.conf", "deep.conf"];
const ENVS: &[&str] = &["HOME_DIR", "PORT", "a", "foo.bar", "UNSET_X", "x-y", "port", "x_y", "foo_bar", "FOO_BAR", "A"];
const ENV_VALUES: &[&str] =
  &["", "v1", "v2", "8080", "${a}", "true", "a = 1", "\u{65e5}", " spaced ", "very long value very long value very long value", "[1]", "null", "0", "\"q\"", "a,b", "line\n", "\t", "C:\\dir\\new", "#x", "${?PORT}", "10s", "V1"];

pub fn cfg(refs: u32, big: u32) -> GenCfg {
  GenCfg { refs, env_names: ENVS.iter().map(|s| s.to_string()).collect(), big, depth: 3, quoted_keys: true }
}
fn base_plan(r: &mut Rng) -> Plan {
  Plan {
    hash_seed: r.next(),
    os_threads: false,
    files: vec![],
    dirs: vec![],
    env: vec![],
    threads: vec![],
    switches: vec![],
    at: vec![],
    faults: vec![],
    chunks: vec![],
    size_lie: 0,
  }
}
pub fn gen_chunks(r: &mut Rng) -> Vec<u32> {
  match r.below(6) {
    0 => vec![],
    1 => vec![1],
    2 => vec![r.logn(64) as u32],
    3 => (0..1 + r.usize(6)).map(|_| r.logn(200) as u32).collect(),
    4 => vec![0, 1, 0, 3],
    _ => vec![r.logn(5000) as u32],
  }
}
fn load_ids(p: &Plan) -> Vec<u32> {
  let mut v = vec![];
  for (t, ops) in p.threads.iter().enumerate() {
    for (i, o) in ops.iter().enumerate() {
      if matches!(o, Op::Load(..)) {
        v.push((t * 64 + i) as u32);
      }
    }
  }
  v
}
const OPEN_ERR: &[&str] = &["ENOENT", "EACCES", "EMFILE", "ENFILE", "ELOOP", "ENOMEM", "EIO", "EPERM", "ENOTDIR", "ETIMEDOUT"];
const READ_ERR: &[&str] = &["EIO", "ESTALE", "EISDIR", "ENOMEM", "EBADF", "EAGAIN", "ENOENT", "EACCES", "ETIMEDOUT", "EINVAL", "ENODATA", "ECONNRESET", "EPIPE"];
pub fn hard_fault(r: &mut Rng, op: u32, max_nth: u64) -> IoFault {
  let nth = r.below(max_nth.max(1)) as u32;
  match r.below(10) {
    0..=2 => IoFault { op, call: "open".into(), nth: r.below(3) as u32, kind: r.pick(OPEN_ERR).to_string(), arg: 0 },
    3 => IoFault { op, call: "stat".into(), nth: r.below(2) as u32, kind: r.pick(&["EIO", "EACCES", "EOVERFLOW"]).to_string(), arg: 0 },
    4 => IoFault { op, call: "close".into(), nth: r.below(2) as u32, kind: "EIO".into(), arg: 0 },
    _ => IoFault { op, call: "read".into(), nth, kind: r.pick(READ_ERR).to_string(), arg: 0 },
  }
}
/// How many further calls in a row are interrupted.
fn streak(r: &mut Rng) -> u32 {
  if r.chance(70) {
    0
  } else {
    r.logn(300) as u32
  }
}
pub fn soft_fault(r: &mut Rng, op: u32) -> IoFault {
  let nth = r.logn(12) as u32 - 1;
  match r.below(5) {
    0 => IoFault { op, call: "open".into(), nth: r.below(2) as u32, kind: "EINTR".into(), arg: streak(r) },
    1 | 2 => IoFault { op, call: "read".into(), nth, kind: "EINTR".into(), arg: streak(r) },
    _ => IoFault { op, call: "read".into(), nth, kind: "SHORT".into(), arg: r.logn(4000) as u32 },
  }
}
pub fn gen_content(r: &mut Rng, g: &GenCfg) -> Content {
  match r.below(20) {
    0 => Content::Empty,
    1 => Content::Bad(r.below(2 * BAD.len() as u64) as u8, gen_doc(r, g, false)),
    2 => {
      let mut b = render(&gen_doc(r, g, false));
      let n = b.len();
      let at = if n == 0 { 0 } else { r.usize(n) };
      b.truncate(n.min(40_000));
      b.insert(at.min(b.len()), *r.pick(&[0xffu8, 0xc3, 0x80, 0xe3]));
      if std::str::from_utf8(&b).is_err() {
        Content::Bytes(b)
      } else {
        Content::Bytes(vec![0xff])
      }
    }
    _ => Content::Doc(gen_doc(r, g, false)),
  }
}
fn docs_only(r: &mut Rng, g: &GenCfg) -> Content {
  Content::Doc(gen_doc(r, g, false))
}
const NAMES: &[&str] = &["App.conf", "BASE.conf", "base.conf.old", "app-conf", "X", "x.x", "more", "more.Conf", "deep", "etc-app.conf", "_", "conf", "file", "url.include"];
const ODD_NAMES: &[&str] = &[
  "conf.d/app.conf",
  "conf.d/base.conf",
  "/etc/app/app.conf",
  "/etc/App/app.conf",
  "app 1.conf",
  " app.conf",
  "app.conf ",
  "\u{65e5}\u{672c}.conf",
  "caf\u{e9}",
  "~/app.conf",
  "$HOME/app.conf",
  "a%20b.conf",
  "a\\b.conf",
  "file:app.conf",
  "app.conf?v=1#x",
  "\"app.conf\"",
  "*.conf",
  "0",
  "-",
];
/// The same plan about files of other names.
fn rename(r: &mut Rng, p: &mut Plan) {
  let mut included = BTreeSet::new();
  let mut contents: Vec<&mut Content> = p.files.iter_mut().map(|f| &mut f.1).collect();
  let mut uses: Vec<&mut String> = vec![];
  for o in p.threads.iter_mut().flatten() {
    match o {
      Op::Load(_, f) | Op::Remove(f) | Op::Storm(_, f, _) => uses.push(f),
      Op::Write(f, c, _) => {
        uses.push(f);
        contents.push(c);
      }
      Op::Parse(_, c) => contents.push(c),
      _ => {}
    }
  }
  for c in &mut contents {
    match c {
      Content::Inc(n, _) => included.extend(n.iter().cloned()),
      Content::Text(_) | Content::Torn(..) => included.extend(FILES.iter().map(|s| s.to_string())),
      _ => {}
    }
  }
  let mut map: BTreeMap<String, String> = BTreeMap::new();
  let long = format!("{}.conf", "long-".repeat(*r.pick(&[20, 45, 80, 110])));
  for f in FILES {
    if r.chance(70) {
      let n = match r.below(10) {
        0 => long.clone(),
        1..=5 if !included.contains(*f) => r.pick(ODD_NAMES).to_string(),
        _ => r.pick(NAMES).to_string(),
      };
      if !map.values().any(|v| *v == n) {
        map.insert(f.to_string(), n);
      }
    }
  }
  let to = |s: &mut String| {
    if let Some(n) = map.get(s) {
      *s = n.clone()
    }
  };
  uses.into_iter().for_each(to);
  p.dirs.iter_mut().for_each(to);
  for c in contents {
    if let Content::Inc(n, _) = c {
      n.iter_mut().for_each(to);
    }
  }
  p.files.iter_mut().for_each(|f| to(&mut f.0));
}
/// One of the documents is big.
fn enlarge(r: &mut Rng, p: &mut Plan) {
  let size = *r.pick(&[4_000u64, 20_000, 80_000, 80_000, 300_000, 300_000, 1_060_000]);
  let size = (size + r.below(size / 2)) as u32;
  let mut docs: Vec<&mut Doc> = p
    .files
    .iter_mut()
    .map(|f| &mut f.1)
    .chain(p.threads.iter_mut().flatten().filter_map(|o| match o {
      Op::Write(_, c, _) | Op::Parse(_, c) => Some(c),
      _ => None,
    }))
    .filter_map(|c| match c {
      Content::Doc(d) | Content::Bad(_, d) => Some(d),
      _ => None,
    })
    .collect();
  if docs.is_empty() {
    return;
  }
  let i = r.usize(docs.len());
  docs[i].pad = size;
  p.chunks = match r.below(4) {
    0 => vec![],
    1 => vec![4096],
    2 => vec![2048 + r.logn(200_000) as u32],
    _ => (0..1 + r.usize(4)).map(|_| 1024 + r.logn(20_000) as u32).collect(),
  };
}
fn big(p: &Plan) -> bool {
  let c = |c: &Content| matches!(c, Content::Doc(d) | Content::Bad(_, d) | Content::Torn(d, _) if d.pad > 0);
  p.files.iter().any(|f| c(&f.1)) || p.threads.iter().flatten().any(|o| matches!(o, Op::Write(_, x, _) | Op::Parse(_, x) if c(x)))
}
fn ser(r: &mut Rng, mut p: Plan) -> Value {
  if !p.os_threads && r.chance(1) {
    enlarge(r, &mut p);
    return serde_json::to_value(p).unwrap();
  }
  if r.chance(25) {
    rename(r, &mut p);
  }
  if r.chance(2) {
    // many loads, then one that counts
    let names: Vec<String> = p.files.iter().map(|f| f.0.clone()).chain(["a.conf".into(), "missing.conf".into()]).collect();
    let t = r.usize(p.threads.len());
    let n = if r.chance(50) { 300 } else { r.logn(300) as u16 };
    let f = r.below(2) as u8;
    let which = r.pick(&names).clone();
    let then = r.pick(&names).clone();
    if p.threads[t].len() < 50 {
      p.threads[t].extend([Op::Storm(f, which, n), Op::Load(f, then), Op::Recheck]);
    }
  }
  serde_json::to_value(p).unwrap()
}
pub fn gen_env(r: &mut Rng) -> Vec<(String, String)> {
  let mut v: Vec<(String, String)> = vec![];
  for e in ENVS {
    if r.chance(50) {
      v.push((e.to_string(), r.pick(ENV_VALUES).to_string()));
    }
  }
  v
}
fn gen_h01(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let g = cfg(0, 35);
  let nf = 1 + r.usize(2);
  for f in FILES.iter().take(nf) {
    if r.chance(90) {
      p.files.push((f.to_string(), gen_content(r, &g)));
    } else if r.chance(40) {
      p.dirs.push(f.to_string());
    }
  }
  let nt = 1 + r.usize(3);
  for _ in 0..nt {
    let n = 1 + r.usize(if t == Tier::Quick { 3 } else { 6 });
    p.threads.push((0..n).map(|_| Op::Load(r.below(2) as u8, r.pick(&FILES[..nf]).to_string())).collect());
  }
  p.chunks = gen_chunks(r);
  p.size_lie = if r.chance(30) { r.below(4) as u32 } else { 0 };
  for id in load_ids(&p) {
    if r.chance(65) {
      let m = *r.pick(&[1, 2, 4, 12, 40]);
      let f = hard_fault(r, id, m);
      p.faults.push(f);
    }
    if r.chance(25) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
  }
  p.switches = gen_switches(r, 6, 30);
  ser(r, p)
}
fn gen_h02(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let g = cfg(6, 30);
  p.env = gen_env(r);
  let nf = 1 + r.usize(3);
  for f in FILES.iter().take(nf) {
    p.files.push((f.to_string(), docs_only(r, &g)));
  }
  if r.chance(25) {
    let names = (0..1 + r.usize(3)).map(|_| r.pick(&FILES[..nf]).to_string()).collect();
    p.files.push(("inc.conf".into(), Content::Inc(names, r.below(5) as u8)));
  }
  let names: Vec<String> = p.files.iter().map(|f| f.0.clone()).collect();
  for _ in 0..1 + r.usize(3) {
    let n = 1 + r.usize(if t == Tier::Quick { 3 } else { 6 });
    p.threads.push(
      (0..n)
        .map(|_| {
          if r.chance(15) {
            Op::Parse(r.below(2) as u8, docs_only(r, &g))
          } else {
            Op::Load(r.below(2) as u8, r.pick(&names).clone())
          }
        })
        .collect(),
    );
  }
  p.chunks = gen_chunks(r);
  p.size_lie = r.below(4) as u32;
  for id in load_ids(&p) {
    for _ in 0..r.usize(4) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
  }
  p.os_threads = r.chance(15);
  if p.os_threads {
    p.at = gen_at(r);
  }
  p.switches = gen_switches(r, 16, 20);
  ser(r, p)
}
fn gen_h03(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let g = cfg(0, 25);
  let file = FILES[0].to_string();
  let mut d = gen_doc(r, &g, false);
  if r.chance(85) {
    p.files.push((file.clone(), Content::Doc(d.clone())));
  }
  let writers = 1 + r.usize(2);
  for _ in 0..writers {
    let n = 1 + r.usize(if t == Tier::Quick { 5 } else { 12 });
    let mut ops = vec![];
    for _ in 0..n {
      let c = match r.below(10) {
        0 => Content::Empty,
        1 => gen_content(r, &g),
        2 | 3 => {
          d = gen_doc(r, &g, false);
          Content::Doc(d.clone())
        }
        _ => {
          d = twist(r, &d);
          if r.chance(20) {
            // shorter or longer than before
            let (k, v) = ("tail".to_string(), gen_leaf(r, &g));
            d.fields.retain(|f| f.0 != "tail");
            if r.chance(60) {
              d.fields.push((k, v));
            }
          }
          Content::Doc(d.clone())
        }
      };
      let how = if r.chance(25) { 2 + r.below(3) as u8 } else { 0 };
      ops.push(Op::Write(file.clone(), c, how));
      if r.chance(8) {
        ops.push(Op::Remove(file.clone()));
      }
      if r.chance(20) {
        ops.push(Op::Tick(1 + r.below(100) as u32));
      }
    }
    p.threads.push(ops);
  }
  for _ in 0..1 + r.usize(3) {
    let n = 1 + r.usize(5);
    p.threads.push((0..n).map(|_| Op::Load(r.below(2) as u8, file.clone())).collect());
  }
  p.chunks = gen_chunks(r);
  p.size_lie = if r.chance(20) { r.below(4) as u32 } else { 0 };
  let broken = r.chance(45);
  for id in load_ids(&p) {
    if r.chance(20) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
    if broken && r.chance(50) {
      let f = hard_fault(r, id, 6);
      p.faults.push(f);
    }
  }
  p.os_threads = r.chance(15);
  if p.os_threads {
    p.at = gen_at(r);
  }
  p.switches = gen_switches(r, 40, 12);
  ser(r, p)
}
fn gen_h04(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let mut g = cfg(4, 8);
  g.quoted_keys = false;
  p.env = gen_env(r);
  let leafs: Vec<String> = (0..2 + r.usize(4)).map(|i| format!("leaf-{}.conf", (b'a' + i as u8) as char)).collect();
  let nodes: Vec<String> = (0..1 + r.usize(4)).map(|i| format!("node-{}.conf", (b'a' + i as u8) as char)).collect();
  let plain = r.chance(55);
  for f in &leafs {
    if plain || r.chance(93) {
      let c = if plain || r.chance(85) { docs_only(r, &g) } else { gen_content(r, &g) };
      p.files.push((f.clone(), c));
    } else if r.chance(30) {
      p.dirs.push(f.clone());
    }
  }
  let cyc = !plain && r.chance(30);
  for (i, f) in nodes.iter().enumerate() {
    let n = 1 + r.usize(4);
    let names = (0..n)
      .map(|_| {
        let lower = &nodes[..i];
        if cyc && r.chance(20) {
          r.pick(&nodes).clone()
        } else if !lower.is_empty() && r.chance(45) {
          r.pick(lower).clone()
        } else if !plain && r.chance(3) {
          "nowhere.conf".into()
        } else {
          r.pick(&leafs).clone()
        }
      })
      .collect();
    p.files.push((f.clone(), Content::Inc(names, r.below(5) as u8)));
  }
  let mut nodes = nodes;
  if r.chance(10) {
    // a long way down, or many includes side by side
    let most = if r.chance(70) { 20 } else { 60 };
    let n = 3 + r.logn(most) as usize;
    let end = if r.chance(50) { r.pick(&leafs).clone() } else { r.pick(&nodes).clone() };
    let name = |i: usize| format!("link-{}{}.conf", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
    let docs = p.files.iter().filter(|f| matches!(f.1, Content::Doc(_))).map(|f| f.0.clone()).collect::<Vec<_>>();
    if r.chance(75) || docs.is_empty() {
      for i in 0..n {
        let mut names = vec![match i {
          0 if cyc && r.chance(40) => name(n - 1 - r.usize(n.min(3))),
          0 => end.clone(),
          _ => name(i - 1),
        }];
        if r.chance(15) {
          let at = r.usize(2);
          names.insert(at, r.pick(&leafs).clone());
        }
        p.files.push((name(i), Content::Inc(names, r.below(5) as u8)));
      }
      nodes.push(name(n - 1));
    } else {
      let names = (0..n).map(|_| r.pick(&docs).clone()).collect();
      p.files.push((name(0), Content::Inc(names, r.below(5) as u8)));
      nodes.push(name(0));
    }
  }
  let nodes = nodes;
  let nt = 1 + r.usize(2);
  for _ in 0..nt {
    let n = 1 + r.usize(if t == Tier::Quick { 2 } else { 5 });
    p.threads.push(
      (0..n).map(|_| Op::Load(r.below(2) as u8, if r.chance(70) { nodes.last().unwrap().clone() } else { r.pick(&nodes).clone() })).collect(),
    );
  }
  if r.chance(40) {
    let n = 1 + r.usize(3);
    let mut ops = vec![];
    for _ in 0..n {
      let f = r.pick(&leafs).clone();
      if p.dirs.contains(&f) {
        continue;
      }
      if r.chance(15) {
        ops.push(Op::Remove(f));
      } else {
        let c = docs_only(r, &g);
        ops.push(Op::Write(f, c, if r.chance(20) { 2 + r.below(3) as u8 } else { 0 }));
      }
    }
    p.threads.push(ops);
  }
  for id in load_ids(&p) {
    if r.chance(if plain { 30 } else { 50 }) {
      let mut f = hard_fault(r, id, 6);
      if f.call == "open" {
        f.nth = r.below(8) as u32;
      }
      p.faults.push(f);
    }
    if r.chance(25) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
  }
  p.chunks = gen_chunks(r);
  p.size_lie = if r.chance(20) { r.below(4) as u32 } else { 0 };
  p.switches = gen_switches(r, 16, 20);
  ser(r, p)
}
fn gen_mut(r: &mut Rng, len: usize) -> Mutn {
  let at = r.below(len as u64 + 1) as u32;
  const NASTY: &[u8] = b"{}[]\"'\\$,=:#/\n 0-.eE+\0unmshd?";
  match r.below(9) {
    0 | 1 => Mutn::Cut(at),
    2 => Mutn::Zero(at, r.logn(4096) as u32),
    3 | 4 => Mutn::Flip(at, r.below(8) as u8),
    5 => Mutn::Old(at, r.logn(512) as u32, r.below(16) as u32),
    6 | 7 => Mutn::Ins(at, if r.chance(80) { *r.pick(NASTY) } else { r.below(256) as u8 }),
    _ => Mutn::Dup(at, r.logn(100) as u32),
  }
}
/// Text that looks like a document, out of its tokens.
fn soup(r: &mut Rng) -> String {
  const T: &[&str] = &[
    "a", "b.c", "=", ":", "{", "}", "[", "]", ",", "\n", " ", "\"x\"", "'y'", "${a}", "${?b.c}", "1", "-1.5", "1e5", "1e99", "99999999999999999999999999999",
    "10s", "3 days", "0.5h", "99999999999999999999d", "18446744073709551615 days", "null", "true", "include file(\"a\")", "#c\n", "//d\n", "\\u0041", "\"\\uD800\"", "\"\\n\"", "\"\"", "+=", "''", ".", "..",
  ];
  const V: &[&str] = &[
    "1e-99", "1E28", "1e+5", "-0", "0.1e", "1.", ".5", "--1", "00", "0x1f", "79228162514264337593543950335", "79228162514264337593543950336", "1e28", "8e28", "0.00000000000000000000000000001",
    "-1 day", "-0.5 s", "1e3 ms", "1e28 days", "106751991167 days", "0.0000000001 ns", "5 d5", "1 sec", "1s2", "\"\\u00e9\"", "\"\\uD83D\\uDE00\"", "\"\\uDE00\\uD83D\"",
    "\"\\u12\"", "\"\\x\"", "\"\\\"", "'\\''", "\"a\" \"b\"", "\u{feff}", "\u{65e5}\u{672c}", "\"\u{1f600}\"", "${", "${}", "${?}", "${?a", "${a}${b}", "${a}x", "${?a}${?a}", "[${a}]", "[1 2]", "[,]", "[1,]",
    "{a:1,}", "{\"a b\"=1}", "{a=}", "{=1}", "\0", "\u{7f}", "nul", "truex", "null1", "include file(\"\")", "include url(\"http://a\")", "include file(\"", "include", "\r", "\t", "/", "*/", "a//b", "a#b",
  ];
  let n = r.logn(60) as usize;
  if r.chance(40) {
    // lines that look like fields
    let mut s = String::new();
    for _ in 0..r.logn(12) {
      s.push_str(*r.pick(&["a", "b", "a.b", "b.c", "\"a b\"", "'k'", "a", "\u{65e5}"]));
      s.push_str(*r.pick(&[" = ", "=", ": ", ":", " ", " += ", ""]));
      for _ in 0..1 + r.usize(2) {
        let t = if r.chance(65) { *r.pick(V) } else { *r.pick(T) };
        s.push_str(t);
      }
      s.push_str(*r.pick(&["\n", "\n", "\n", ", ", ",\n", " ", "\r\n", "\n\n"]));
    }
    return s;
  }
  (0..n).map(|_| if r.chance(25) { *r.pick(V) } else { *r.pick(T) }).collect()
}
/// Fields that refer to one another, in circles more often than not.
fn tangle(r: &mut Rng) -> String {
  const K: &[&str] = &["a", "b", "c", "d", "a.b", "b.c", "c.d", "a.c", "d.a", "a.b.c"];
  let nk = 1 + r.usize(4);
  let ring = r.chance(50);
  let mut s = String::new();
  let n = 1 + r.usize(7);
  for i in 0..n {
    let of = if r.chance(50) { nk } else { K.len() };
    let k = if ring { K[i % (nk + 1)] } else { *r.pick(&K[..of]) };
    let to = |r: &mut Rng, s: &mut String| {
      let p = if ring && r.chance(80) { K[(i + 1) % (nk + 1)] } else { *r.pick(K) };
      s.push_str(if r.chance(50) { "${" } else { "${?" });
      s.push_str(p);
      s.push('}');
    };
    s.push_str(k);
    s.push_str(if r.chance(12) { " += " } else { " = " });
    match r.below(10) {
      0 => {
        s.push('[');
        to(r, &mut s);
        s.push_str(", 1]");
      }
      1 => {
        s.push_str("{ e = ");
        to(r, &mut s);
        s.push_str(", f = 1 }");
      }
      2 => {
        s.push_str("{ b = { c = ");
        to(r, &mut s);
        s.push_str(" } }");
      }
      3 => {
        to(r, &mut s);
        to(r, &mut s);
      }
      4 => s.push_str(*r.pick(&["1", "x", "{}", "[]", "null", "{ d = 2 }"])),
      _ => to(r, &mut s),
    }
    s.push('\n');
  }
  s
}
fn gen_h05(r: &mut Rng, _t: Tier) -> Value {
  let mut p = base_plan(r);
  let g = cfg(10, 10);
  p.env = gen_env(r);
  let mut ops = vec![];
  let n = 1 + r.usize(5);
  for _ in 0..n {
    let f = FILES[r.usize(2)].to_string();
    let c = if r.chance(30) {
      Content::Text(soup(r))
    } else if r.chance(15) {
      Content::Text(tangle(r))
    } else {
      let d = gen_doc(r, &g, false);
      let len = render(&d).len();
      let many = if r.chance(50) { 1 } else { 6 };
      let k = 1 + r.usize(many);
      let m = (0..k).map(|_| gen_mut(r, len)).collect();
      Content::Torn(d, m)
    };
    ops.push(Op::Write(f.clone(), c, 1));
    ops.push(Op::Load(r.below(2) as u8, f));
  }
  if r.chance(30) {
    p.files.push(("inc.conf".into(), Content::Inc(vec![FILES[0].into(), FILES[1].into()], r.below(5) as u8)));
    ops.push(Op::Load(0, "inc.conf".into()));
  }
  p.threads.push(ops);
  if r.chance(30) {
    p.chunks = gen_chunks(r);
  }
  ser(r, p)
}
fn gen_h06(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let g = cfg(12, 8);
  p.env = gen_env(r);
  let nf = 1 + r.usize(3);
  let mut docs: Vec<Doc> = vec![];
  for f in FILES.iter().take(nf) {
    let d = gen_doc(r, &g, false);
    p.files.push((f.to_string(), Content::Doc(d.clone())));
    docs.push(d);
  }
  let inc = r.chance(30);
  if inc {
    let names = (0..1 + r.usize(3)).map(|_| r.pick(&FILES[..nf]).to_string()).collect();
    p.files.push(("inc.conf".into(), Content::Inc(names, r.below(5) as u8)));
  }
  let nt = 1 + r.usize(3);
  for _ in 0..nt {
    let n = 3 + r.usize(if t == Tier::Quick { 8 } else { 30 });
    let mut ops = vec![];
    for _ in 0..n {
      let i = r.usize(nf);
      ops.push(match r.below(20) {
        0..=7 => Op::Load(r.below(3) as u8, if inc && r.chance(30) { "inc.conf".into() } else { FILES[i].to_string() }),
        8..=11 => {
          // overwritten in place, same size, same modification time
          docs[i] = twist(r, &docs[i]);
          Op::Write(FILES[i].to_string(), Content::Doc(docs[i].clone()), 1)
        }
        12 => {
          docs[i] = gen_doc(r, &g, false);
          Op::Write(FILES[i].to_string(), Content::Doc(docs[i].clone()), r.below(2) as u8)
        }
        13 => Op::Write(FILES[i].to_string(), gen_content(r, &g), r.below(2) as u8),
        14 => Op::Remove(FILES[i].to_string()),
        15 => Op::SetEnv(r.pick(ENVS).to_string(), if r.chance(70) { Some(r.pick(ENV_VALUES).to_string()) } else { None }),
        16 => Op::Parse(r.below(3) as u8, Content::Doc(docs[i].clone())),
        17 => Op::Forget(r.below(8) as u8),
        _ => Op::Recheck,
      });
    }
    p.threads.push(ops);
  }
  for id in load_ids(&p) {
    if r.chance(12) {
      let f = hard_fault(r, id, 4);
      p.faults.push(f);
    }
    if r.chance(15) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
  }
  p.chunks = gen_chunks(r);
  p.os_threads = r.chance(15);
  if p.os_threads {
    p.at = gen_at(r);
  }
  p.switches = gen_switches(r, 24, 20);
  ser(r, p)
}
fn gen_h07(r: &mut Rng, t: Tier) -> Value {
  let mut p = base_plan(r);
  let mut g = cfg(55, 0);
  g.depth = 2;
  g.quoted_keys = false;
  p.env = gen_env(r);
  let nf = 1 + r.usize(2);
  for f in FILES.iter().take(nf) {
    p.files.push((f.to_string(), docs_only(r, &g)));
  }
  let inc = r.chance(35);
  if inc {
    let names = (0..1 + r.usize(3)).map(|_| r.pick(&FILES[..nf]).to_string()).collect();
    p.files.push(("inc.conf".into(), Content::Inc(names, r.below(5) as u8)));
  }
  for _ in 0..1 + r.usize(3) {
    let n = 1 + r.usize(if t == Tier::Quick { 6 } else { 14 });
    let mut ops = vec![];
    for _ in 0..n {
      ops.push(match r.below(12) {
        0..=5 => Op::Load(r.below(2) as u8, if inc && r.chance(40) { "inc.conf".into() } else { r.pick(&FILES[..nf]).to_string() }),
        6 => Op::Parse(r.below(2) as u8, docs_only(r, &g)),
        _ => Op::SetEnv(r.pick(ENVS).to_string(), if r.chance(60) { Some(r.pick(ENV_VALUES).to_string()) } else { None }),
      });
    }
    p.threads.push(ops);
  }
  for id in load_ids(&p) {
    if r.chance(10) {
      let f = hard_fault(r, id, 3);
      p.faults.push(f);
    }
    if r.chance(10) {
      let f = soft_fault(r, id);
      p.faults.push(f);
    }
  }
  p.os_threads = r.chance(15);
  if p.os_threads {
    p.at = gen_at(r);
  }
  p.switches = gen_switches(r, 24, 16);
  ser(r, p)
}
fn gen_h09(r: &mut Rng, t: Tier) -> Value {
  match r.below(6) {
    0 => gen_h01(r, t),
    1 => gen_h02(r, t),
    2 => gen_h03(r, t),
    3 => gen_h05(r, t),
    4 => gen_h06(r, t),
    _ => gen_h04(r, t),
  }
}
const OUTCOME: Focus = Focus { outcome: true, snapshot: false, traces: false, panics: true };
fn run_outcome(v: &Value) -> RunOut {
  run_plan(v, OUTCOME, false).0
}
fn run_h05(v: &Value) -> RunOut {
  run_plan(v, Focus { outcome: false, snapshot: false, traces: false, panics: true }, false).0
}
fn run_h06(v: &Value) -> RunOut {
  run_plan(v, Focus { outcome: true, snapshot: true, traces: false, panics: true }, false).0
}
fn run_h09(v: &Value) -> RunOut {
  run_plan(v, Focus { outcome: false, snapshot: false, traces: true, panics: false }, false).0
}

// ------------------------------------------------------------------ H08
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct P8 {
  hash_seed: u64,
  texts: Vec<Content>,
  env: Vec<(String, String)>,
  procs: u8,
  #[serde(default)]
  switches: Switches,
  #[serde(default)]
  at: Vec<At>,
  repeat: u8,
}
fn gen_h08(r: &mut Rng, _t: Tier) -> Value {
  let g = cfg(25, 5);
  let n = 1 + r.usize(3);
  let texts = (0..n)
    .map(|_| match r.below(10) {
      0 => Content::Text(if r.chance(70) { soup(r) } else { tangle(r) }),
      1 | 2 => {
        let d = gen_doc(r, &g, true);
        let len = render(&d).len();
        let k = 1 + r.usize(3);
        Content::Torn(d, (0..k).map(|_| gen_mut(r, len)).collect())
      }
      3..=6 => Content::Doc(gen_doc(r, &g, true)),
      _ => {
        // many keys, many of them the same
        let mut d = gen_doc(r, &g, true);
        // keys that differ in case only
        for _ in 0..r.usize(3) {
          if !d.fields.is_empty() {
            let (k, _) = d.fields[r.usize(d.fields.len())].clone();
            let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            let k = if r.chance(50) { k.chars().map(flip).collect() } else { k.chars().enumerate().map(|(i, c)| if i == 0 { flip(c) } else { c }).collect::<String>() };
            d.fields.push((k, gen_leaf(r, &g)));
          }
        }
        for _ in 0..r.usize(12) {
          let k = format!("{}.{}", r.pick(&["a", "b", "foo"]), r.pick(&["a", "b", "foo", "x-y"]));
          let k = if r.chance(50) { k } else { k[..k.find('.').unwrap()].to_string() };
          let v = match r.below(5) {
            0 => Dv::O(vec![("a".into(), gen_leaf(r, &g)), ("b.c".into(), gen_leaf(r, &g)), ("b".into(), Dv::O(vec![("c".into(), gen_leaf(r, &g))]))]),
            1 => Dv::R(r.pick(&["a", "b", "a.b", "foo.a", "PORT", "UNSET_X"]).to_string(), r.chance(40)),
            2 => Dv::A(vec![gen_leaf(r, &g)]),
            _ => gen_leaf(r, &g),
          };
          d.fields.push((k, v));
        }
        Content::Doc(d)
      }
    })
    .collect();
  let (hash_seed, env, procs, repeat) = (r.next(), gen_env(r), 2 + r.below(4) as u8, 1 + r.below(2) as u8);
  let (switches, at) = if r.chance(30) { (gen_switches(r, 16, 40), gen_at(r)) } else { (vec![], vec![]) };
  serde_json::to_value(P8 { hash_seed, texts, env, procs, repeat, switches, at }).unwrap()
}
fn wild_ok(c: &Content) -> bool {
  match c {
    Content::Doc(d) | Content::Torn(d, _) => d.fields.len() < 200,
    Content::Text(t) => t.len() < 20_000,
    _ => false,
  }
}
/// A dozen of the paths a program can ask for.
fn some_paths(cv: &Cv) -> Vec<(String, Option<Cv>)> {
  let v = ask_paths(cv);
  let step = (v.len() + 11) / 12;
  v.into_iter().step_by(step.max(1)).collect()
}
fn run_h08(v: &Value) -> RunOut {
  let Ok(p) = serde_json::from_value::<P8>(v.clone()) else { return RunOut::default() };
  if p.texts.is_empty() || !p.texts.iter().all(wild_ok) || p.procs < 2 || p.procs > 8 || p.repeat > 4 || p.env.iter().any(|(k, v)| !path_like(k) || v.contains('\0')) {
    return RunOut::default();
  }
  begin(p.hash_seed);
  let w = world();
  w.env.clear();
  w.env_ptrs.clear();
  for (k, v) in &p.env {
    w.set_env(k, Some(v));
  }
  w.sync_environ();
  let texts: Vec<String> = p.texts.iter().map(|c| String::from_utf8_lossy(&bytes_of(c)).to_string()).collect();
  alloc_budget(texts.iter().map(|t| t.len()).sum::<usize>() * 100);
  // The texts once more as files, loaded together by way of includes.
  let names: Vec<String> = (0..texts.len()).map(|i| format!("t{}.conf", (b'a' + i as u8 % 26) as char)).collect();
  for (n, t) in names.iter().zip(&texts) {
    w.put_new(n, t.as_bytes());
  }
  w.put_new("all.conf", &bytes_of(&Content::Inc(names, p.hash_seed as u8 % 5)));
  type Ans = Vec<Result<String, String>>;
  let res: &'static mut Vec<Vec<Ans>> = Box::leak(Box::new(vec![vec![]; p.procs as usize]));
  struct Ptr(*mut Vec<Vec<Ans>>);
  unsafe impl Send for Ptr {}
  let texts: &'static Vec<String> = Box::leak(Box::new(texts));
  let rep = p.repeat.max(1);
  let base = res as *mut Vec<Vec<Ans>>;
  let tasks = (0..p.procs as usize)
    .map(|i| -> Box<dyn FnOnce() + Send> {
      let ptr = Ptr(base);
      Box::new(move || {
        let ptr = ptr;
        let mut f = ConfigFactory::new();
        for j in 0..rep {
          let mut a: Ans = vec![];
          for t in texts.iter().map(Some).chain([None]) {
            let r = match t {
              Some(t) => sut_catch(|| f.parse_from_string(t)),
              None => {
                world().begin_op((i * 64 + 1) as u32);
                let r = sut_catch(|| f.load_from_file("all.conf"));
                world().end_op();
                r
              }
            };
            a.push(match r {
              Ok(Ok(c)) => match sut_catch(|| {
                let cv = canon(c.to_config_value());
                let mut s = format!("{:?}", cv);
                for (p, _) in if j == 0 { some_paths(&cv) } else { vec![] } {
                  s.push_str(&format!("\n{} {} {:?}", p, c.has_path(&p), c.get_value(&p).map(canon)));
                }
                s
              }) {
                Ok(s) => Ok(s),
                Err(e) => Err(format!("asking panicked: {:?}", e)),
              },
              Ok(Err(e)) => Err(format!("{:?}", e)),
              Err(e) => Err(format!("panicked: {:?}", e)),
            });
          }
          unsafe { (&mut *ptr.0)[i].push(a) };
        }
      })
    })
    .collect();
  with_blocks(&p.at, || sched::run_threads(tasks, &p.switches));
  TASK.with(|t| t.set(0));
  let mut out = RunOut::default();
  let res = unsafe { &*base };
  let first = &res[0][0];
  for (i, rs) in res.iter().enumerate() {
    for (j, a) in rs.iter().enumerate() {
      for (k, x) in a.iter().enumerate() {
        // the paths are asked for in the first repetition
        let same = match (x, &first[k]) {
          (Ok(x), Ok(y)) if j > 0 => Some(x.as_str()) == y.split('\n').next(),
          (x, y) => x == y,
        };
        if !same {
          out.violate(
            "differs",
            format!("process {} repetition {} text {}: {:?} instead of {:?}: {:?}", i, j, k, clip(x), clip(&first[k]), texts.get(k).unwrap_or(&format!("all of {:?}", texts))),
          );
        }
      }
    }
  }
  for x in first {
    out.observe(&format!("{:?}", x));
    out.probe(if x.is_ok() { "texts:ok" } else { "texts:error" }, 1);
  }
  if first.last().map_or(false, |x| x.is_ok()) {
    out.probe("includes:ok", 1);
  }
  out.fault("process:other-hash-seed", p.procs as u64 - 1);
  out.nontrivial = true;
  out.sim_ms = p.procs as u64;
  finish(&mut out, hash_str(&serde_json::to_string(&p.texts).unwrap()));
  out
}
fn clip(x: &Result<String, String>) -> String {
  match x {
    Ok(s) => format!("ok {}", s.chars().take(400).collect::<String>()),
    Err(s) => format!("error {}", s.chars().take(400).collect::<String>()),
  }
}

const REAL: &[&str] = &[
  "hocon: ConfigFactory, DefaultFileReader, parsers, merge, include and reference resolution, Config lookups",
  "parser: every combinator the HOCON grammar uses",
  "Rust std file, environment and hash-map code down to the libc symbols",
];
const STUB: &[&str] = &[
  "file system (libc open/read/stat/lseek/close symbols): in-memory, with versions and injected errors",
  "environment (getenv/setenv), random bytes (getrandom), clock: simulated",
  "the writers of the files and the calling program: harness tasks",
];
const ASSUME: &[&str] = &[
  "documents are drawn from the part of HOCON whose meaning the specification fixes and the grammar of this crate accepts; where key spellings conflict no outcome is demanded",
  "an I/O call is atomic with respect to other tasks; pre-emption happens between calls",
];
pub fn scenarios() -> Vec<Scenario> {
  let s = |id, gen, run, runs_quick, rule| Scenario { id, gen, run, runs_quick, rule, real: REAL, stub: STUB, assumptions: ASSUME };
  vec![
    s("H01", gen_h01, run_outcome, 36_000, "a run counts if at least one load was made"),
    s("H02", gen_h02, run_outcome, 30_000, "a run counts if at least one load was made"),
    s("H03", gen_h03, run_outcome, 24_000, "a run counts if at least one load was made"),
    s("H04", gen_h04, run_outcome, 36_000, "a run counts if at least one load was made"),
    s("H05", gen_h05, run_h05, 36_000, "a run counts if at least one damaged file was loaded"),
    s("H06", gen_h06, run_h06, 24_000, "a run counts if at least one load was made"),
    s("H07", gen_h07, run_outcome, 42_000, "a run counts if at least one load was made"),
    s("H08", gen_h08, run_h08, 9_000, "a run counts if it compared at least two processes"),
    s("H09", gen_h09, run_h09, 36_000, "a run counts if at least one load was made"),
  ]
}
