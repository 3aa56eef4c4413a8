//! What simulated user code does while a parse is running: yields, panics, parses again, changes the log level.
use crate::runner::RunOut;
use crate::sched::{self, YK_CB};
use crate::sys::TASK;
use crate::util::{harness, Thrown};
use std::collections::{BTreeMap, BTreeSet};

pub const CALLBACK: u32 = 0;
pub const CLONE: u32 = 1;
pub const SINK: u32 = 2;

/// A parse in progress.
#[derive(Default)]
pub struct Frame {
  pub op: usize,
  /// Positions at which a cached parser's inner parser was evaluated: (instance, address, offset).
  pub evals: BTreeSet<(u32, usize, usize)>,
  /// The record the sink must receive next.
  pub pending: Option<(u8, log::Level, String)>,
}
#[derive(Default)]
pub struct Live {
  pub on: bool,
  alive: Vec<bool>,
  pub living: i64,
  pub double_drop: u64,
  calls: BTreeMap<i32, u32>,
  total: u32,
  /// (task, n-th call of user code in it, kinds it may hit)
  pub panics: Vec<(u8, u32)>,
  /// (callback or sink call, op): run that op inside it, once
  pub nests: Vec<(u32, usize)>,
  /// (n-th call of user code in the run, new level)
  pub flips: Vec<(u32, u8)>,
  pub clone_panics: bool,
  pub frames: BTreeMap<i32, Vec<Frame>>,
  pub nested: Option<fn(usize)>,
  pub out: RunOut,
  pub max_depth: usize,
  pub user_calls: u64,
  pub records: u64,
  pub foreign_records: u64,
}
static mut L: *mut Live = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn live() -> &'static mut Live {
  unsafe {
    if L.is_null() {
      L = Box::into_raw(Box::default());
    }
    &mut *L
  }
}
impl Live {
  /// Continues the count of calls of user code in a task from `n`; what it was.
  pub fn set_calls(&mut self, task: i32, n: u32) -> u32 {
    self.calls.insert(task, n).unwrap_or(0)
  }
  pub fn reset_calls(&mut self, task: i32) {
    self.calls.insert(task, 0);
  }
}
pub fn born() -> u32 {
  let l = live();
  l.living += 1;
  l.alive.push(true);
  l.alive.len() as u32 - 1
}
pub fn died(id: u32) {
  let l = live();
  if !std::mem::replace(&mut l.alive[id as usize], false) {
    l.double_drop += 1;
  } else {
    l.living -= 1;
  }
}
pub fn task() -> i32 {
  TASK.with(|t| t.get())
}
pub fn frames() -> &'static mut Vec<Frame> {
  live().frames.entry(task()).or_default()
}
pub fn level(n: u8) -> log::LevelFilter {
  use log::LevelFilter::*;
  [Off, Error, Warn, Info, Debug, Trace][n as usize % 6]
}

/// Called by every piece of user code. `id`: which one, for nested parses.
pub fn user_code_id(kind: u32, id: u32) {
  if !live().on || sched::being_abandoned() || std::thread::panicking() {
    return;
  }
  harness(|| {
    sched::yield_point(if kind == SINK { sched::YK_LOG } else { YK_CB });
    let l = live();
    let t = task();
    l.user_calls += 1;
    let n = {
      let c = l.calls.entry(t).or_insert(0);
      *c += 1;
      *c - 1
    };
    let g = l.total;
    l.total += 1;
    if let Some(f) = l.flips.iter().find(|f| f.0 == g) {
      log::set_max_level(level(f.1));
      l.out.fault("log:level-change", 1);
    }
    if kind != CLONE && frames().len() < 3 {
      if let Some(i) = l.nests.iter().position(|x| x.0 == id) {
        let (_, op) = l.nests.remove(i);
        l.out.fault("user:nested-parse", 1);
        if let Some(f) = l.nested {
          f(op);
        }
      }
    }
    let l = live();
    if (kind != CLONE || l.clone_panics) && l.panics.iter().any(|p| p.0 as i32 == t && p.1 == n) {
      l.out.fault(["user:panic", "user:panic-in-clone", "sink:panic"][kind as usize], 1);
      std::panic::resume_unwind(Box::new(Thrown(n)));
    }
  })
}
pub fn user_code(kind: u32) {
  user_code_id(kind, u32::MAX)
}
