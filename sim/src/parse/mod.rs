//! P01-P05: the combinators under callers that interleave, nest, abandon, panic, refuse and log.
pub mod g;
pub mod live;
pub mod val;

use crate::cron::gen_switches;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{RunOut, Scenario, Tier};
use crate::sched::{self, Abandon, Switches, YK_OP};
use crate::sys::TASK;
use crate::util::{begin, finish, harness, sut, sut_catch, Panic};
use g::{any, bounds, gen_input, valid, Cls, Gen, GenCfg, Model, No, Policy, G, REGEX, SETS};
use live::{frames, level, live, user_code_id, Frame, CALLBACK, SINK};
use oni_comb_parser_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use val::{Fold, V};

#[derive(Clone, Copy, PartialEq)]
pub enum Probe {
  No,
  /// Count evaluations below caches.
  Cache,
  /// Note the outcome of every parser that is logged.
  Log,
}
fn leak(s: &str) -> &'static str {
  Box::leak(s.to_string().into_boxed_str())
}
pub fn name(i: u8) -> &'static str {
  static mut NAMES: Vec<&'static str> = vec![];
  #[allow(static_mut_refs)]
  harness(|| unsafe {
    while NAMES.len() <= i as usize {
      let n = format!("lp{}", NAMES.len());
      NAMES.push(Box::leak(n.into_boxed_str()));
    }
    NAMES[i as usize]
  })
}

/// Parsers over characters.
pub mod chars {
  use super::*;
  type E = char;
  fn to_e(c: char) -> E {
    c
  }
  fn to_c(e: E) -> char {
    e
  }
  fn text(s: &[E]) -> String {
    s.iter().collect()
  }
  fn excerpt_text(s: &[E]) -> String {
    text(s)
  }
  static FOREIGN: &[E] = &['x', 'y', 'z', '\u{e9}', '\u{65e5}'];
  macro_rules! named_set {
    ($set:ident, $neg:expr, $s:expr) => {
      $set!($neg, $s)
    };
  }
  fn char_only(g: &G) -> P {
    match g {
      G::Tag(s) => tag(leak(s)).map(V::s),
      G::TagNc(s) => tag_no_case(leak(s)).map(V::s),
      G::Re(i) => regex(REGEX[*i as usize % REGEX.len()].0).map(V::s),
      _ => unreachable!(),
    }
  }
  include!("build.rs");
  include!("engine.rs");
}
/// Parsers over bytes. Plans name a byte by the character of its number.
mod bytes {
  use super::*;
  type E = u8;
  fn to_e(c: char) -> E {
    c as u32 as u8
  }
  fn to_c(e: E) -> char {
    e as char
  }
  fn text(s: &[E]) -> String {
    s.iter().map(|e| *e as char).collect()
  }
  fn excerpt_text(s: &[E]) -> String {
    String::from_utf8(s.to_vec()).unwrap_or_default()
  }
  static FOREIGN: &[E] = b"xyz\xe9\x00";
  macro_rules! named_set {
    ($set:ident, $neg:expr, $s:expr) => {
      match $s.len() {
        0 => $set!($neg, b""),
        _ => {
          let v: Vec<E> = $s.chars().map(to_e).collect();
          match v.len() {
            1 => $set!($neg, keep([v[0]])),
            2 => $set!($neg, keep([v[0], v[1]])),
            _ => $set!($neg, keep([v[0], v[1], v[2]])),
          }
        }
      }
    };
  }
  fn char_only(_: &G) -> P {
    unreachable!()
  }
  include!("build.rs");
  include!("engine.rs");
}
/// Whether a grammar and a text make sense over bytes.
fn fits_bytes(p: &Plan) -> bool {
  let byte = |c: char| (c as u32) < 256;
  let mut ok = p.inputs.iter().all(|i| i.text.chars().all(byte));
  for g in p.rules.iter().chain(&p.tops) {
    any(g, &mut |g| {
      ok &= match g {
        G::Tag(_) | G::TagNc(_) | G::Re(_) => false,
        G::Seq(s) => s.chars().all(byte),
        G::El(c, _) | G::Pred(_, c, _) | G::While(_, _, c, _, _) | G::Till(_, _, c) => g::fits_bytes(c),
        _ => true,
      }
    });
  }
  ok
}
fn run(v: &Value, focus: Focus) -> RunOut {
  match serde_json::from_value::<Plan>(v.clone()) {
    Ok(p) if !p.bytes => chars::run(p, focus),
    Ok(p) if fits_bytes(&p) => bytes::run(p, focus),
    _ => RunOut::default(),
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Inp {
  text: String,
  /// The text is repeated.
  rep: u16,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
  p: u8,
  i: u8,
  /// The caller's slice of the input.
  from: u16,
  to: u16,
  /// Offset of the parse state in it.
  start: u16,
  /// 0: run, 1: parse, 2: parse_as_result
  api: u8,
  /// Through a clone that is dropped afterwards.
  clone: bool,
}
/// One parse many times over, each time with a panic at the same call of user code.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Storm {
  task: u8,
  /// Before this step of the task.
  step: u8,
  op: u8,
  times: u16,
  panic: Option<u32>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
  /// Elements are bytes instead of characters.
  #[serde(default)]
  bytes: bool,
  rules: Vec<G>,
  tops: Vec<G>,
  pol: Policy,
  inputs: Vec<Inp>,
  ops: Vec<Op>,
  tasks: Vec<Vec<u8>>,
  switches: Switches,
  abandon: Vec<Abandon>,
  panics: Vec<(u8, u32)>,
  clone_panics: bool,
  /// (callback number, or 1000 + logging point for the sink; op)
  nests: Vec<(u32, u8)>,
  level: u8,
  flips: Vec<(u32, u8)>,
  #[serde(default)]
  storms: Vec<Storm>,
}
#[derive(Clone, Copy)]
struct Focus {
  /// Compare with the reference interpreter.
  model: bool,
  /// Compare with a fresh copy, built with (true) or without caches.
  fresh: Option<bool>,
  probe: Probe,
  leaks: bool,
  render: bool,
  sink: bool,
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Outcome {
  ok: Option<(u64, Option<usize>)>,
  err: Option<(Option<bool>, String)>,
  panic: Option<String>,
  shown: String,
}
impl Outcome {
  fn same(&self, o: &Outcome) -> bool {
    // the interpreter does not predict error texts
    let err = match (&self.err, &o.err) {
      (Some(a), Some(b)) => a.0 == b.0 && (a.1 == b.1 || b.1.is_empty()),
      (a, b) => a == b,
    };
    self.ok == o.ok && err && self.panic == o.panic
  }
  fn text(&self) -> String {
    let cut = |s: &str| s.chars().take(220).collect::<String>();
    if let Some(p) = &self.panic {
      return format!("panic: {}", cut(p));
    }
    match (&self.ok, &self.err) {
      (Some((_, n)), _) => format!("{} (length {:?})", cut(&self.shown), n),
      (_, Some((c, e))) => format!("failure, committed {:?}: {}", c, cut(e)),
      _ => "nothing".into(),
    }
  }
}
// ------------------------------------------------------------------ the log sink
struct Sink;
static SINK_: Sink = Sink;
impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn flush(&self) {}
  fn log(&self, rec: &log::Record) {
    if !live().on || sched::being_abandoned() {
      return;
    }
    harness(|| {
      let text = rec.args().to_string();
      let l = live();
      let id = text.find("lp").and_then(|i| {
        let d: String = text[i + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
        d.parse::<u8>().ok()
      });
      match id {
        None => l.foreign_records += 1,
        Some(id) => {
          l.records += 1;
          if let Some(f) = frames().last_mut() {
            match f.pending.take() {
              None => l.out.violate(
                "record-unexpected",
                format!("parse {}: a record of {} that no evaluation of it accounts for", f.op, name(id)),
              ),
              Some((i, lv, t)) => {
                if i != id || lv != rec.level() {
                  l.out.violate(
                    "record-order",
                    format!("parse {}: a {} record of {} instead of a {} one of {}", f.op, rec.level(), name(id), lv, name(i)),
                  );
                } else if !text.contains(&t) {
                  l.out.violate(
                    "record-content",
                    format!("parse {}: the record {:?} does not carry the outcome {:?}", f.op, text, t),
                  );
                }
              }
            }
          }
        }
      }
      live::user_code_id(SINK, 1000 + id.unwrap_or(200) as u32);
    })
  }
}

// ------------------------------------------------------------------ generators
fn gen_plan(r: &mut Rng, tier: Tier, c: GenCfg, depth: u32, tasks: usize) -> (Plan, u16, u8) {
  let rules_n = if r.chance(45) { 1 + r.below(3) as u8 } else { 0 };
  let bytes = r.chance(20);
  let c = GenCfg { rules: rules_n, bytes, ..c };
  let pol = Policy { seed: r.next() >> 16, no: *r.pick(&[0u8, 0, 10, 25, 50, 80]) };
  let mut gn = Gen { r, c, cb: 0, logs: 0 };
  let mut rules = vec![];
  for i in 0..rules_n {
    let g = gn.gen(depth, true, i + 1);
    rules.push(g);
  }
  let nt = 1 + gn.r.usize(2);
  let tops: Vec<G> = (0..nt).map(|_| gn.gen(depth + 1, false, 0)).collect();
  let (cbs, logs) = (gn.cb, gn.logs);
  let big = tier == Tier::Thorough && r.chance(10);
  let inputs: Vec<Inp> = (0..1 + r.usize(4))
    .map(|_| Inp { text: gen_input(r, &rules, &tops, bytes), rep: if r.chance(5) { 1 + r.logn(if big { 200 } else { 30 }) as u16 } else { 1 } })
    .collect();
  let n_ops = 2 + r.usize(if tier == Tier::Thorough { 14 } else { 7 });
  let ops = (0..n_ops)
    .map(|_| {
      let i = r.usize(inputs.len());
      let len = inputs[i].text.chars().count() as u64 * inputs[i].rep as u64;
      let sub = r.chance(35);
      let from = if sub && r.chance(60) { r.below(len.min(20) + 1) as u16 } else { 0 };
      let to = if sub { (from as u64 + r.below(len + 2)).min(60_000) as u16 } else { u16::MAX };
      Op {
        p: r.usize(tops.len()) as u8,
        i: i as u8,
        from,
        to,
        start: if r.chance(25) { r.below(6) as u16 } else { 0 },
        api: *r.pick(&[0, 0, 0, 1, 2]),
        clone: r.chance(25),
      }
    })
    .collect::<Vec<_>>();
  let tasks: Vec<Vec<u8>> = (0..tasks).map(|_| (0..1 + r.usize(4)).map(|_| r.usize(n_ops) as u8).collect()).collect();
  let nests = if cbs > 0 && r.chance(40) {
    (0..1 + r.usize(3)).map(|_| (r.below(cbs as u64) as u32, r.usize(n_ops) as u8)).collect()
  } else {
    vec![]
  };
  let p = Plan {
    bytes,
    rules,
    tops,
    pol,
    inputs,
    ops,
    switches: vec![],
    abandon: vec![],
    panics: vec![],
    clone_panics: false,
    nests,
    level: 0,
    flips: vec![],
    storms: vec![],
    tasks,
  };
  (p, cbs, logs)
}
fn stormy(r: &mut Rng, p: &mut Plan, panics: u32) {
  if r.chance(3) {
    let t = r.usize(p.tasks.len());
    p.storms.push(Storm {
      task: t as u8,
      step: r.usize(p.tasks[t].len()) as u8,
      op: r.usize(p.ops.len()) as u8,
      times: if r.chance(60) { 300 } else { r.logn(300) as u16 },
      panic: if r.chance(panics) { Some(r.logn(12) as u32 - 1) } else { None },
    });
  }
}
fn concurrent(r: &mut Rng, p: &mut Plan) {
  let n = r.usize(30);
  p.switches = gen_switches(r, n, 12);
}
fn gen_p01(r: &mut Rng, tier: Tier) -> Value {
  let d = 2 + r.below(3) as u32;
  let n = 1 + r.usize(4);
  let (mut p, _, _) = gen_plan(r, tier, GenCfg { rules: 0, bytes: false, cache: 6, log: 3, regex: 2, user: 30 }, d, n);
  concurrent(r, &mut p);
  if r.chance(30) {
    for _ in 0..1 + r.usize(2) {
      p.abandon.push(Abandon { task: r.usize(n) as u32, nth: r.below(40) as u32 });
    }
  }
  stormy(r, &mut p, 0);
  serde_json::to_value(p).unwrap()
}
fn gen_p02(r: &mut Rng, tier: Tier) -> Value {
  let d = 2 + r.below(3) as u32;
  let n = 1 + r.usize(3);
  let (mut p, _, _) = gen_plan(r, tier, GenCfg { rules: 0, bytes: false, cache: 22, log: 0, regex: 1, user: 25 }, d, n);
  concurrent(r, &mut p);
  if r.chance(15) {
    p.abandon.push(Abandon { task: r.usize(n) as u32, nth: r.below(40) as u32 });
  }
  if r.chance(15) {
    p.panics.push((r.usize(n) as u8, r.below(40) as u32));
    p.clone_panics = r.chance(50);
  }
  stormy(r, &mut p, 20);
  serde_json::to_value(p).unwrap()
}
fn gen_p03(r: &mut Rng, tier: Tier) -> Value {
  let d = 2 + r.below(3) as u32;
  let n = 1 + r.usize(3);
  let (mut p, _, _) = gen_plan(r, tier, GenCfg { rules: 0, bytes: false, cache: 10, log: 2, regex: 1, user: 45 }, d, n);
  concurrent(r, &mut p);
  for _ in 0..1 + r.usize(4) {
    p.panics.push((r.usize(n) as u8, r.logn(50) as u32 - 1));
  }
  p.clone_panics = r.chance(40);
  if r.chance(10) {
    p.abandon.push(Abandon { task: r.usize(n) as u32, nth: r.below(40) as u32 });
  }
  stormy(r, &mut p, 80);
  serde_json::to_value(p).unwrap()
}
fn gen_p04(r: &mut Rng, tier: Tier) -> Value {
  let d = 2 + r.below(3) as u32;
  let (mut p, _, _) = gen_plan(r, tier, GenCfg { rules: 0, bytes: false, cache: 2, log: 1, regex: 3, user: 42 }, d, 1);
  p.nests.clear();
  if p.pol.no == 0 && r.chance(70) {
    p.pol.no = *r.pick(&[15, 40]);
  }
  // inputs cut off at any element
  p.ops.truncate(4);
  for _ in 0..3 + r.usize(12) {
    let mut o = r.pick(&p.ops).clone();
    let n = p.inputs[o.i as usize].text.chars().count() as u64;
    o.from = 0;
    o.to = r.below(n + 1) as u16;
    p.ops.push(o);
  }
  p.tasks = vec![(0..p.ops.len() as u8).collect()];
  stormy(r, &mut p, 0);
  serde_json::to_value(p).unwrap()
}
fn gen_p05(r: &mut Rng, tier: Tier) -> Value {
  let d = 2 + r.below(3) as u32;
  let n = 1 + r.usize(3);
  let (mut p, _, logs) = gen_plan(r, tier, GenCfg { rules: 0, bytes: false, cache: 2, log: 22, regex: 2, user: 20 }, d, n);
  concurrent(r, &mut p);
  p.level = *r.pick(&[0, 1, 2, 3, 4, 4, 4, 5]);
  if r.chance(50) {
    for _ in 0..1 + r.usize(5) {
      p.flips.push((r.below(60) as u32, r.below(6) as u8));
    }
  }
  if logs > 0 && r.chance(40) {
    for _ in 0..1 + r.usize(2) {
      p.nests.push((1000 + r.below(logs as u64) as u32, r.usize(p.ops.len()) as u8));
    }
  }
  if r.chance(30) {
    for _ in 0..1 + r.usize(2) {
      p.panics.push((r.usize(n) as u8, r.below(40) as u32));
    }
  }
  stormy(r, &mut p, 30);
  serde_json::to_value(p).unwrap()
}

const BASE: Focus = Focus { model: true, fresh: Some(true), probe: Probe::No, leaks: false, render: false, sink: false };
fn run_p01(v: &Value) -> RunOut {
  run(v, BASE)
}
fn run_p02(v: &Value) -> RunOut {
  run(v, Focus { model: false, fresh: Some(false), probe: Probe::Cache, ..BASE })
}
fn run_p03(v: &Value) -> RunOut {
  run(v, Focus { model: false, leaks: true, ..BASE })
}
fn run_p04(v: &Value) -> RunOut {
  run(v, Focus { fresh: None, render: true, ..BASE })
}
fn run_p05(v: &Value) -> RunOut {
  run(v, Focus { model: false, probe: Probe::Log, sink: true, ..BASE })
}
const REAL: &[&str] = &["parser crate (all public combinators, over characters and bytes)"];
const STUB: &[&str] = &[
  "user code: callbacks, predicates, continuations, value types (harness)",
  "scheduler of callers: coroutines switched by the simulator at user code",
];
pub fn scenarios() -> Vec<Scenario> {
  vec![
    Scenario {
      id: "P01",
      gen: gen_p01,
      run: run_p01,
      runs_quick: 400_000,
      rule: "callers interleaved, nested, were abandoned, or reused a parser value",
      real: REAL,
      stub: STUB,
      assumptions: &["grammars without left recursion and without repetition of parsers that consume nothing"],
    },
    Scenario {
      id: "P02",
      gen: gen_p02,
      run: run_p02,
      runs_quick: 400_000,
      rule: "a cached parser took part in a parse",
      real: REAL,
      stub: STUB,
      assumptions: &["user code is a function of its argument"],
    },
    Scenario {
      id: "P03",
      gen: gen_p03,
      run: run_p03,
      runs_quick: 400_000,
      rule: "a parse was ended by a panic of user code",
      real: REAL,
      stub: STUB,
      assumptions: &["panics unwind"],
    },
    Scenario {
      id: "P04",
      gen: gen_p04,
      run: run_p04,
      runs_quick: 400_000,
      rule: "user code refused something or the input was cut off",
      real: REAL,
      stub: &["user code: callbacks, predicates, continuations, value types (harness)"],
      assumptions: &["a separated repetition keeps a trailing separator", "repetitions swallow committed failures of their items"],
    },
    Scenario {
      id: "P05",
      gen: gen_p05,
      run: run_p05,
      runs_quick: 400_000,
      rule: "a logging point emitted a record",
      real: &["parser crate (all public combinators, over characters and bytes)", "log crate"],
      stub: &["log sink (harness)", "user code (harness)", "scheduler of callers"],
      assumptions: &["formatting a value does not change the log level"],
    },
  ]
}
