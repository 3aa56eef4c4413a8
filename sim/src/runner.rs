//! Runs plans in forked processes, aggregates, minimises, replays, writes evidence.
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
  pub class: String,
  pub detail: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct RunOut {
  pub violation: Option<Violation>,
  /// The run did something the property is about (see the scenario's rule).
  pub nontrivial: bool,
  /// Identity of the explored behaviour: plan shape, interleaving and faults that fired.
  pub fp: u64,
  /// Interleaving hash alone.
  pub ilv: u64,
  pub faults: BTreeMap<String, u64>,
  pub probes: BTreeMap<String, u64>,
  pub sim_ms: u64,
  pub steps: u64,
  /// Hash of everything observed, for the determinism check.
  pub obs: u64,
}
impl RunOut {
  pub fn probe(&mut self, k: &str, n: u64) {
    if n > 0 {
      *self.probes.entry(k.into()).or_insert(0) += n;
    }
  }
  pub fn fault(&mut self, k: &str, n: u64) {
    if n > 0 {
      *self.faults.entry(k.into()).or_insert(0) += n;
    }
  }
  pub fn violate(&mut self, class: &str, detail: impl Into<String>) {
    if self.violation.is_none() {
      let d: String = detail.into();
      self.violation = Some(Violation { class: class.into(), detail: d.chars().take(1500).collect() });
    }
  }
  pub fn observe(&mut self, s: &str) {
    self.obs = mix(self.obs ^ hash_str(s));
  }
}
pub struct Scenario {
  pub id: &'static str,
  pub gen: fn(&mut Rng, Tier) -> Value,
  pub run: fn(&Value) -> RunOut,
  pub runs_quick: u64,
  pub rule: &'static str,
  pub real: &'static [&'static str],
  pub stub: &'static [&'static str],
  pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------------ one run in a process of its own
const REGION: usize = 8 << 20;
struct Region(*mut u8);
static mut REG: *mut u8 = std::ptr::null_mut();
fn new_region() -> Region {
  let p = unsafe {
    libc::mmap(
      std::ptr::null_mut(),
      REGION,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED | libc::MAP_ANONYMOUS,
      -1,
      0,
    )
  };
  Region(p as *mut u8)
}
unsafe fn publish(status: u32, bytes: &[u8]) {
  let n = bytes.len().min(REGION - 8);
  std::ptr::copy_nonoverlapping(bytes.as_ptr(), REG.add(8), n);
  *(REG.add(4) as *mut u32) = n as u32;
  std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
  std::ptr::write_volatile(REG as *mut u32, status);
}
fn exit_now(code: i32) -> ! {
  unsafe {
    crate::sys::raw6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
  }
  loop {}
}
const ST_OUT: u32 = 1;
const ST_HANG: u32 = 2;
const ST_VIOL: u32 = 3;
/// Ends the run: the code under test does not stop working. Callable from the allocator and from signal handlers.
pub fn die_hang(msg: &str) -> ! {
  unsafe {
    if !REG.is_null() {
      publish(ST_HANG, msg.as_bytes());
    }
  }
  exit_now(97)
}
pub fn die_violation(class: &str, msg: &str) -> ! {
  let _g = crate::alloc::nohook();
  let s = format!("{}\n{}", class, msg);
  unsafe { publish(ST_VIOL, s.as_bytes()) };
  exit_now(96)
}
extern "C" fn on_prof(_s: i32) {
  die_hang("cpu time limit");
}
extern "C" fn on_alrm(_s: i32) {
  unsafe {
    if !REG.is_null() {
      publish(ST_HANG, b"stalled (wall-clock backstop)");
    }
  }
  exit_now(97)
}

/// The longest run so far, of this process.
static mut MAX_CPU_MS: u64 = 0;
pub enum Input<'a> {
  Seed(u64, Tier),
  Plan(&'a str),
  /// Only generate the plan and hand it back.
  Gen(u64, Tier),
}
pub enum Outcome {
  Run(RunOut),
  Plan(String),
  HarnessError(String),
}
pub fn run_seed(sc: &Scenario, base: u64, index: u64) -> u64 {
  mix(mix(base ^ 0x6f6e69) ^ hash_str(sc.id) ^ mix(index))
}
pub fn run_in_child(sc: &Scenario, input: Input, region: &RegionBox, cpu_s: i64) -> Outcome {
  unsafe {
    REG = region.0 .0;
    *(REG as *mut u32) = 0;
    *(REG.add(4) as *mut u32) = 0;
    let pid = libc::fork();
    if pid < 0 {
      return Outcome::HarnessError("fork failed".into());
    }
    if pid == 0 {
      child(sc, input, cpu_s);
    }
    let mut st = 0;
    let mut ru: libc::rusage = std::mem::zeroed();
    while libc::wait4(pid, &mut st, 0, &mut ru) < 0 {}
    MAX_CPU_MS = MAX_CPU_MS.max(ru.ru_utime.tv_sec as u64 * 1000 + ru.ru_utime.tv_usec as u64 / 1000);
    let status = std::ptr::read_volatile(REG as *const u32);
    let n = *(REG.add(4) as *const u32) as usize;
    let bytes = std::slice::from_raw_parts(REG.add(8), n.min(REGION - 8));
    let text = String::from_utf8_lossy(bytes).to_string();
    let out = |class: &str, detail: String| {
      Outcome::Run(RunOut {
        violation: Some(Violation { class: class.into(), detail }),
        nontrivial: true,
        ..Default::default()
      })
    };
    match status {
      ST_OUT => {
        if matches!(input_kind(&text), 'P') {
          return Outcome::Plan(text[1..].to_string());
        }
        match serde_json::from_str::<RunOut>(&text[1..]) {
          Ok(r) => Outcome::Run(r),
          Err(e) => Outcome::HarnessError(format!("bad record: {}", e)),
        }
      }
      ST_HANG => out("hang", text),
      ST_VIOL => {
        let (c, d) = text.split_once('\n').unwrap_or((&text, ""));
        out(c, d.to_string())
      }
      _ => {
        if libc::WIFSIGNALED(st) {
          let sig = libc::WTERMSIG(st);
          if sig == libc::SIGKILL {
            return Outcome::HarnessError("run process was killed".into());
          }
          out("crash", format!("the process died of signal {}", sig))
        } else {
          let code = libc::WEXITSTATUS(st);
          if code == 99 {
            Outcome::HarnessError("harness panic in run".into())
          } else {
            out("exit", format!("the process exited with status {}", code))
          }
        }
      }
    }
  }
}
/// Runs `f` in a process of its own, forked off this one, and hands its answer back; `None` if it did not end properly.
pub fn apart(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
  static mut SIDE: *mut u8 = std::ptr::null_mut();
  unsafe {
    if SIDE.is_null() {
      SIDE = new_region().0;
    }
    *(SIDE as *mut u32) = 0;
    let pid = libc::fork();
    if pid < 0 {
      return None;
    }
    if pid == 0 {
      REG = SIDE;
      let it = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
      };
      setitimer(2, &it, std::ptr::null_mut());
      libc::alarm(200);
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
      let _g = crate::alloc::nohook();
      if let Ok(v) = v {
        publish(ST_OUT, &v);
      }
      exit_now(0);
    }
    let mut st = 0;
    while libc::waitpid(pid, &mut st, 0) < 0 {}
    if std::ptr::read_volatile(SIDE as *const u32) != ST_OUT {
      return None;
    }
    let n = *(SIDE.add(4) as *const u32) as usize;
    Some(std::slice::from_raw_parts(SIDE.add(8), n.min(REGION - 8)).to_vec())
  }
}
pub struct RegionBox(Region);
impl RegionBox {
  pub fn new() -> Self {
    RegionBox(new_region())
  }
}
fn input_kind(s: &str) -> char {
  s.chars().next().unwrap_or(' ')
}
fn child(sc: &Scenario, input: Input, cpu_s: i64) -> ! {
  unsafe {
    let it = libc::itimerval {
      it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
      it_value: libc::timeval { tv_sec: cpu_s, tv_usec: 0 },
    };
    libc::signal(libc::SIGPROF, on_prof as *const () as usize);
    libc::signal(libc::SIGALRM, on_alrm as *const () as usize);
    setitimer(2, &it, std::ptr::null_mut());
    libc::alarm(300);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    if std::env::var_os("ONISIM_STDERR").is_none() {
      let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY, 0);
      libc::dup2(fd, 2);
    }
  }
  if std::env::var_os("ONISIM_STDERR").is_none() {
    std::panic::set_hook(Box::new(|_| {}));
  }
  crate::alloc::activate();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let plan: Value = match input {
      Input::Seed(seed, tier) => (sc.gen)(&mut Rng::new(seed), tier),
      Input::Plan(s) => serde_json::from_str(s).expect("plan"),
      Input::Gen(seed, tier) => {
        let p = (sc.gen)(&mut Rng::new(seed), tier);
        let s = format!("P{}", serde_json::to_string(&p).unwrap());
        unsafe { publish(ST_OUT, s.as_bytes()) };
        exit_now(0);
      }
    };
    (sc.run)(&plan)
  }));
  let _g = crate::alloc::nohook();
  match r {
    Ok(o) => {
      let s = format!("R{}", serde_json::to_string(&o).unwrap());
      unsafe { publish(ST_OUT, s.as_bytes()) };
      exit_now(0)
    }
    Err(e) => {
      if std::env::var_os("ONISIM_STDERR").is_some() {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("harness panic: {:?}", m);
      }
      exit_now(99)
    }
  }
}

extern "C" {
  fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

// ------------------------------------------------------------------ batches
#[derive(Default, Serialize, Deserialize)]
struct Agg {
  runs: u64,
  nontrivial: u64,
  fps: BTreeSet<u64>,
  ilvs: BTreeSet<u64>,
  faults: BTreeMap<String, u64>,
  fault_runs: BTreeMap<String, u64>,
  probes: BTreeMap<String, u64>,
  sim_ms: u64,
  steps: u64,
  viol: Vec<(u64, Violation)>,
  nondet: u64,
  rerun: u64,
  errors: Vec<String>,
  max_cpu_ms: u64,
}
impl Agg {
  fn add(&mut self, i: u64, r: &RunOut) {
    self.runs += 1;
    if r.nontrivial {
      self.nontrivial += 1;
      if self.fps.len() < 3_000_000 {
        self.fps.insert(r.fp);
      }
    }
    if self.ilvs.len() < 3_000_000 {
      self.ilvs.insert(r.ilv);
    }
    for (k, v) in &r.faults {
      *self.faults.entry(k.clone()).or_insert(0) += v;
      *self.fault_runs.entry(k.clone()).or_insert(0) += 1;
    }
    for (k, v) in &r.probes {
      *self.probes.entry(k.clone()).or_insert(0) += v;
    }
    self.sim_ms += r.sim_ms;
    self.steps += r.steps;
    if let Some(v) = &r.violation {
      self.viol.push((i, v.clone()));
    }
  }
  fn merge(&mut self, o: Agg) {
    self.runs += o.runs;
    self.nontrivial += o.nontrivial;
    self.fps.extend(o.fps);
    self.ilvs.extend(o.ilvs);
    for (k, v) in o.faults {
      *self.faults.entry(k).or_insert(0) += v;
    }
    for (k, v) in o.fault_runs {
      *self.fault_runs.entry(k).or_insert(0) += v;
    }
    for (k, v) in o.probes {
      *self.probes.entry(k).or_insert(0) += v;
    }
    self.sim_ms += o.sim_ms;
    self.steps += o.steps;
    self.viol.extend(o.viol);
    self.nondet += o.nondet;
    self.rerun += o.rerun;
    self.errors.extend(o.errors);
    self.max_cpu_ms = self.max_cpu_ms.max(o.max_cpu_ms);
  }
}
pub struct BatchCfg {
  pub seed: u64,
  pub tier: Tier,
  pub runs: u64,
  pub wall: Duration,
  pub workers: u64,
}
const CPU_S: i64 = 15;

fn batch(sc: &Scenario, cfg: &BatchCfg, known: &[Known]) -> Agg {
  let shared = new_region();
  let minv = unsafe { &*(shared.0 as *const std::sync::atomic::AtomicU64) };
  minv.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
  let t0 = Instant::now();
  let mut pipes = vec![];
  std::io::stdout().flush().ok();
  for w in 0..cfg.workers {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
      unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::close(fds[0]);
      }
      let region = RegionBox::new();
      let mut a = Agg::default();
      let mut i = w;
      while i < cfg.runs && t0.elapsed() < cfg.wall {
        if i > minv.load(std::sync::atomic::Ordering::SeqCst) {
          break;
        }
        let seed = run_seed(sc, cfg.seed, i);
        match run_in_child(sc, Input::Seed(seed, cfg.tier), &region, CPU_S) {
          Outcome::Run(r) => {
            if let Some(v) = &r.violation {
              if !known.iter().any(|k| k.matches(sc.id, v)) {
                minv.fetch_min(i, std::sync::atomic::Ordering::SeqCst);
              }
            }
            if (i / cfg.workers) % 97 == 5 && r.violation.is_none() {
              a.rerun += 1;
              if let Outcome::Run(r2) = run_in_child(sc, Input::Seed(seed, cfg.tier), &region, CPU_S) {
                if r2 != r {
                  a.nondet += 1;
                }
              }
            }
            a.add(i, &r);
          }
          Outcome::HarnessError(e) => {
            a.errors.push(format!("run {}: {}", i, e));
            if a.errors.len() > 20 {
              break;
            }
          }
          Outcome::Plan(_) => {}
        }
        i += cfg.workers;
      }
      a.max_cpu_ms = unsafe { MAX_CPU_MS };
      let bytes = serde_json::to_vec(&a).unwrap();
      let mut off = 0;
      while off < bytes.len() {
        let n = unsafe { libc::write(fds[1], bytes[off..].as_ptr() as *const _, bytes.len() - off) };
        if n <= 0 {
          break;
        }
        off += n as usize;
      }
      exit_now(0);
    }
    unsafe { libc::close(fds[1]) };
    pipes.push((pid, fds[0]));
  }
  let mut total = Agg::default();
  for (pid, fd) in pipes {
    let mut buf = vec![];
    let mut chunk = vec![0u8; 1 << 16];
    loop {
      let n = unsafe { libc::read(fd, chunk.as_mut_ptr() as *mut _, chunk.len()) };
      if n <= 0 {
        break;
      }
      buf.extend_from_slice(&chunk[..n as usize]);
    }
    unsafe { libc::close(fd) };
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match serde_json::from_slice::<Agg>(&buf) {
      Ok(a) => total.merge(a),
      Err(e) => total.errors.push(format!("worker lost: {}", e)),
    }
  }
  total.viol.sort_by_key(|v| v.0);
  total
}

// ------------------------------------------------------------------ minimisation
fn size(v: &Value) -> usize {
  match v {
    Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(),
    Value::Object(o) => 1 + o.values().map(size).sum::<usize>(),
    Value::String(s) => 1 + s.len(),
    Value::Number(n) => {
      1 + n.as_u64().map(|x| 64 - x.leading_zeros() as usize).unwrap_or(3) / 8
        + (n.as_u64() != Some(0)) as usize
    }
    Value::Bool(b) => 1 + *b as usize,
    Value::Null => 0,
  }
}
fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
  out.push(cur.clone());
  match v {
    Value::Array(a) => {
      for (i, x) in a.iter().enumerate() {
        cur.push(i.to_string());
        paths(x, cur, out);
        cur.pop();
      }
    }
    Value::Object(o) => {
      for (k, x) in o {
        cur.push(k.clone());
        paths(x, cur, out);
        cur.pop();
      }
    }
    _ => {}
  }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
  let mut c = v;
  for k in p {
    c = match c {
      Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
      Value::Object(o) => o.get_mut(k)?,
      _ => return None,
    };
  }
  Some(c)
}
/// What may be cut out of a sequence of n elements: large pieces first, single elements only of short ones.
fn cuts(n: usize) -> Vec<(usize, usize)> {
  let mut out = vec![];
  let mut step = n;
  while step >= 1 && n > 0 {
    out.extend((0..n).step_by(step).map(|i| (i, (i + step).min(n))));
    step /= 2;
    if n > 64 && step < n / 32 {
      break;
    }
  }
  out
}
fn candidates<'a>(node: &'a Value) -> Box<dyn Iterator<Item = Value> + 'a> {
  match node {
    Value::Array(a) => Box::new(cuts(a.len()).into_iter().map(move |(i, j)| {
      Value::Array(a[..i].iter().chain(a[j..].iter()).cloned().collect())
    })),
    Value::Number(x) => {
      let mut out = vec![];
      if let Some(u) = x.as_u64() {
        for c in [0, 1, u / 2, u.saturating_sub(1)] {
          if c < u {
            out.push(json!(c));
          }
        }
      } else if let Some(i) = x.as_i64() {
        for c in [0, i / 2, i + 1] {
          if c != i {
            out.push(json!(c));
          }
        }
      }
      Box::new(out.into_iter())
    }
    Value::String(s) => {
      let cs: Vec<char> = s.chars().collect();
      Box::new(
        cuts(cs.len())
          .into_iter()
          .map(move |(i, j)| Value::String(cs[..i].iter().chain(cs[j..].iter()).collect())),
      )
    }
    Value::Bool(true) => Box::new(std::iter::once(json!(false))),
    Value::Object(o) if o.len() == 1 => {
      // an enum node {"Tag": payload}: try to replace it by one of its sub-trees with an enum shape
      match o.values().next().unwrap() {
        Value::Array(a) => Box::new(a.iter().filter(|x| x.is_object() || x.is_string()).cloned()),
        Value::Object(i) => Box::new(i.values().filter(|x| x.is_object() || x.is_string()).cloned()),
        _ => Box::new(std::iter::empty()),
      }
    }
    _ => Box::new(std::iter::empty()),
  }
}
pub fn minimise(sc: &Scenario, plan: Value, class: &str, wall: Duration) -> (Value, Violation, u64) {
  let region = RegionBox::new();
  let t0 = Instant::now();
  let mut tried = 0u64;
  let test = |p: &Value, tried: &mut u64| -> Option<Violation> {
    *tried += 1;
    match run_in_child(sc, Input::Plan(&serde_json::to_string(p).unwrap()), &region, CPU_S) {
      Outcome::Run(r) => r.violation.filter(|v| v.class == class),
      _ => None,
    }
  };
  let mut best = plan;
  let mut bestv = match test(&best, &mut tried) {
    Some(v) => v,
    None => return (best, Violation { class: class.into(), detail: "(not reproduced from the plan)".into() }, tried),
  };
  let mut improved = true;
  while improved && t0.elapsed() < wall {
    improved = false;
    let mut ps = vec![];
    paths(&best, &mut vec![], &mut ps);
    // big containers first
    let mut k = 0;
    while k < ps.len() && t0.elapsed() < wall {
      let p = ps[k].clone();
      k += 1;
      loop {
        let mut probe = best.clone();
        let Some(node) = at(&mut probe, &p) else { break };
        let node = node.clone();
        let mut took = false;
        for c in candidates(&node) {
          if t0.elapsed() >= wall {
            break;
          }
          let mut cand = best.clone();
          *at(&mut cand, &p).unwrap() = c;
          if size(&cand) >= size(&best) {
            continue;
          }
          if let Some(v) = test(&cand, &mut tried) {
            best = cand;
            bestv = v;
            took = true;
            improved = true;
            break;
          }
        }
        if !took {
          break;
        }
      }
    }
  }
  (best, bestv, tried)
}

// ------------------------------------------------------------------ known findings
#[derive(Clone, Debug, Deserialize)]
pub struct Known {
  pub status: String,
  pub property: String,
  #[serde(default)]
  pub class: String,
  #[serde(default)]
  pub detail_contains: String,
  #[serde(default)]
  pub what: String,
}
impl Known {
  fn matches(&self, prop: &str, v: &Violation) -> bool {
    self.status == "known"
      && self.property == prop
      && self.class == v.class
      && !self.detail_contains.is_empty()
      && v.detail.contains(&self.detail_contains)
  }
}
fn load_known(root: &str) -> Vec<Known> {
  let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root)) else { return vec![] };
  s.lines().filter(|l| !l.trim().is_empty()).filter_map(|l| serde_json::from_str(l).ok()).collect()
}

// ------------------------------------------------------------------ commands
pub fn root() -> String {
  std::env::var("ONISIM_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn seed_env() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}
pub fn cmd_check(sc: &Scenario, tier: Tier, runs: Option<u64>, wall_s: Option<u64>) -> i32 {
  let root = root();
  let seed = seed_env();
  let known = load_known(&root);
  let workers = std::env::var("ONISIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
  let cfg = BatchCfg {
    seed,
    tier,
    runs: runs.unwrap_or(match tier {
      Tier::Quick => sc.runs_quick,
      Tier::Thorough => u64::MAX,
    }),
    wall: Duration::from_secs(wall_s.unwrap_or(match tier {
      Tier::Quick => 240,
      Tier::Thorough => 600,
    })),
    workers,
  };
  println!("onisim: property={} tier={:?} seed={} runs<={}", sc.id, tier, seed, cfg.runs);
  let t0 = Instant::now();
  crate::cov::share();
  let agg = batch(sc, &cfg, &known);
  let wall = t0.elapsed().as_secs_f64();
  let blocks = crate::cov::reached();
  if let Some(p) = std::env::var_os("ONISIM_BLOCKS") {
    crate::cov::dump(&p.to_string_lossy());
  }
  let mut exit = 0;
  let mut seen_known: BTreeSet<String> = BTreeSet::new();
  let mut fresh: Vec<(u64, Violation)> = vec![];
  for (i, v) in &agg.viol {
    match known.iter().find(|k| k.matches(sc.id, v)) {
      Some(k) => {
        seen_known.insert(k.what.clone());
      }
      None => fresh.push((*i, v.clone())),
    }
  }
  for k in known.iter().filter(|k| k.status == "known" && k.property == sc.id) {
    println!("KNOWN-FINDING: property={} {}", sc.id, k.what);
  }
  let region = RegionBox::new();
  let mut samples = vec![];
  for i in 0..cfg.runs.min(3) {
    if let Outcome::Plan(p) = run_in_child(sc, Input::Gen(run_seed(sc, seed, i), tier), &region, CPU_S) {
      let mut s = p;
      if s.len() > 1500 {
        s = format!("{}...", s.chars().take(1500).collect::<String>());
      }
      samples.push(json!({"run": i, "plan": s}));
    }
  }
  if let Some((i, v)) = fresh.first() {
    exit = 1;
    let plan = match run_in_child(sc, Input::Gen(run_seed(sc, seed, *i), tier), &region, CPU_S) {
      Outcome::Plan(p) => serde_json::from_str(&p).unwrap_or(Value::Null),
      _ => Value::Null,
    };
    let wall_min = Duration::from_secs(if tier == Tier::Quick { 40 } else { 120 });
    let (small, sv, tried) = minimise(sc, plan, &v.class, wall_min);
    let dir = format!("{}/replays", root);
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{}-{}.json", dir, sc.id, seed, i);
    let file = json!({"property": sc.id, "class": sv.class, "detail": sv.detail, "seed": seed, "run": i,
      "first_detail": v.detail, "minimiser_runs": tried, "plan": small});
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()) {
      println!("onisim: cannot write {}: {}", path, e);
    }
    println!("onisim: run {} violates: [{}] {}", i, v.class, v.detail);
    println!("onisim: minimised after {} runs: [{}] {}", tried, sv.class, sv.detail);
    println!("VIOLATION property={} replay={}", sc.id, path);
  }
  if !agg.errors.is_empty() {
    for e in agg.errors.iter().take(5) {
      println!("onisim: harness error: {}", e);
    }
    if exit == 0 {
      exit = 2;
    }
  }
  let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
  let ev = json!({
    "property": sc.id,
    "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
    "seed": seed,
    "level": "exploration",
    "coverage": {
      "evaluations": agg.runs,
      "distinct_nontrivial": agg.fps.len(),
      "nontrivial_runs": agg.nontrivial,
      "rule": sc.rule,
      "samples": samples,
      "runs_per_hour": per_hour(agg.runs),
      "longest_run_cpu_ms": agg.max_cpu_ms,
      "cpu_limit_ms": CPU_S * 1000,
      "simulated_seconds": agg.sim_ms as f64 / 1000.0,
      "scheduler_steps": agg.steps,
      "distinct_interleavings": agg.ilvs.len(),
      "distinct_measure": "distinct_nontrivial: hash of plan shape, interleaving, fired faults and outcomes of a non-trivial run; distinct_interleavings: hash of the sequence of task switches (from, to, kind of point, step)",
      "faults_fired": agg.faults,
      "runs_with_fault": agg.fault_runs,
      "probes": agg.probes,
      "code_blocks_reached": blocks.0,
      "code_blocks": blocks.1,
      "code_blocks_measure": "basic blocks of the four crates, as compiled into their own object files (generic code instantiated in the harness is not among them)",
      "determinism_reruns": agg.rerun,
      "determinism_mismatches": agg.nondet,
      "known_findings_seen": seen_known.iter().collect::<Vec<_>>(),
      "components_real": sc.real,
      "components_stub": sc.stub,
    },
    "assumptions": sc.assumptions,
    "wall_s": wall,
    "violations": fresh.len(),
  });
  std::fs::create_dir_all(format!("{}/evidence", root)).ok();
  let evp = format!("{}/evidence/{}.json", root, sc.id);
  std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
  println!(
    "onisim: {} runs ({} non-trivial, {} distinct, {} interleavings) in {:.1}s, {} violations, {} nondeterministic of {}",
    agg.runs,
    agg.nontrivial,
    agg.fps.len(),
    agg.ilvs.len(),
    wall,
    fresh.len(),
    agg.nondet,
    agg.rerun
  );
  println!("onisim: {} of {} blocks of code reached; longest run {} ms", blocks.0, blocks.1, agg.max_cpu_ms);
  println!("onisim: faults {:?}", agg.faults);
  println!("onisim: probes {:?}", agg.probes);
  exit
}
pub fn cmd_replay(scs: &[Scenario], path: &str) -> i32 {
  let s = std::fs::read_to_string(path).expect("replay file");
  let v: Value = serde_json::from_str(&s).expect("replay file");
  let id = v["property"].as_str().expect("property");
  let sc = scs.iter().find(|s| s.id == id).expect("unknown property");
  let region = RegionBox::new();
  match run_in_child(sc, Input::Plan(&v["plan"].to_string()), &region, CPU_S) {
    Outcome::Run(r) => match r.violation {
      Some(x) => {
        println!("[{}] {}", x.class, x.detail);
        println!("VIOLATION property={} replay={}", id, path);
        if Some(x.class.as_str()) != v["class"].as_str() {
          println!("(class differs from the recorded one)");
        }
        1
      }
      None => {
        println!("replay: no violation");
        0
      }
    },
    _ => {
      println!("replay: harness error");
      2
    }
  }
}
pub fn cmd_gen(sc: &Scenario, index: u64, tier: Tier) {
  let region = RegionBox::new();
  if let Outcome::Plan(p) =
    run_in_child(sc, Input::Gen(run_seed(sc, seed_env(), index), tier), &region, CPU_S)
  {
    println!("{}", p);
  }
}
pub fn cmd_run(sc: &Scenario, index: u64, tier: Tier) {
  let region = RegionBox::new();
  match run_in_child(sc, Input::Seed(run_seed(sc, seed_env(), index), tier), &region, CPU_S) {
    Outcome::Run(r) => println!("{}", serde_json::to_string_pretty(&r).unwrap()),
    Outcome::HarnessError(e) => println!("harness error {}", e),
    _ => {}
  }
}
/// Determinism: every record of many runs, twice, under different worker counts and in different processes.
pub fn cmd_records(sc: &Scenario, n: u64, tier: Tier) {
  let region = RegionBox::new();
  let seed = seed_env();
  for i in 0..n {
    match run_in_child(sc, Input::Seed(run_seed(sc, seed, i), tier), &region, CPU_S) {
      Outcome::Run(r) => {
        println!("{} {} {:016x}", sc.id, i, hash_str(&serde_json::to_string(&r).unwrap()))
      }
      _ => println!("{} {} error", sc.id, i),
    }
  }
}
