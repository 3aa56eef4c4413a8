//! The scheduler: decides at every yield point which task runs. Tasks are either coroutines on one thread (they share
//! `!Send` values of the code under test) or real OS threads of which exactly one holds the baton.
use crate::alloc::{nohook, IN_SUT, NOHOOK};
use crate::rng::mix;
use crate::sys::TASK;
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const YK_ALLOC: u32 = 1;
pub const YK_IO: u32 = 2;
pub const YK_ENV: u32 = 3;
pub const YK_CB: u32 = 4;
pub const YK_LOG: u32 = 5;
pub const YK_LOCK: u32 = 6;
pub const YK_OP: u32 = 7;
pub const YK_BLOCK: u32 = 8;

/// The plan's schedule: after `gap` further yield points, switch to the `pick`-th other runnable task.
pub type Switches = Vec<(u32, u8)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Abandon {
  pub task: u32,
  pub nth: u32,
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
  Off,
  Coro,
  Threads,
}
pub struct Sched {
  mode: Mode,
  switches: Switches,
  pos: usize,
  countdown: u32,
  done: Vec<bool>,
  cur: usize,
  next: usize,
  yielders: Vec<*const Yielder<(), ()>>,
  flags: Vec<(bool, u32)>,
  blocked_streak: u32,
  counts: Vec<u32>,
  abandon: Vec<Abandon>,
  abandon_now: bool,
  pub abandoned: Vec<bool>,
  pub yields: u64,
  pub nswitches: u64,
  pub by_kind: [u64; 9],
  pub hash: u64,
  pub budget: u64,
}
static mut S: Sched = Sched {
  mode: Mode::Off,
  switches: vec![],
  pos: 0,
  countdown: 0,
  done: vec![],
  cur: 0,
  next: 0,
  yielders: vec![],
  flags: vec![],
  blocked_streak: 0,
  counts: vec![],
  abandon: vec![],
  abandon_now: false,
  abandoned: vec![],
  yields: 0,
  nswitches: 0,
  by_kind: [0; 9],
  hash: 0,
  budget: 4_000_000,
};
#[allow(static_mut_refs)]
pub fn st() -> &'static mut Sched {
  unsafe { &mut S }
}

fn runnable_others(s: &Sched) -> usize {
  (0..s.done.len()).filter(|&i| i != s.cur && !s.done[i]).count()
}
fn nth_other(s: &Sched, k: usize) -> usize {
  // the k-th other runnable task, counted cyclically from the current one
  let n = s.done.len();
  let mut k = k;
  for d in 1..n {
    let i = (s.cur + d) % n;
    if !s.done[i] {
      if k == 0 {
        return i;
      }
      k -= 1;
    }
  }
  s.cur
}
fn load_next(s: &mut Sched) {
  s.countdown = s.switches.get(s.pos).map(|x| x.0).unwrap_or(u32::MAX);
}

/// A point at which the current task may be pre-empted.
pub fn yield_point(kind: u32) {
  let s = st();
  if s.mode == Mode::Off {
    return;
  }
  let t = TASK.with(|t| t.get());
  if t < 0 || t as usize != s.cur {
    return;
  }
  if s.mode == Mode::Coro && (kind == YK_ALLOC || s.abandoned[s.cur]) {
    return;
  }
  let _g = nohook();
  s.yields += 1;
  s.by_kind[kind as usize] += 1;
  s.blocked_streak = 0;
  if s.yields > s.budget {
    crate::runner::die_hang("yield budget exhausted");
  }
  if s.mode == Mode::Coro {
    let c = s.counts[s.cur];
    s.counts[s.cur] += 1;
    if !s.abandon.is_empty() && s.abandon.iter().any(|a| a.task as usize == s.cur && a.nth == c) {
      s.abandon_now = true;
      s.next = s.cur;
      suspend(kind);
      return;
    }
  }
  if s.pos >= s.switches.len() {
    return;
  }
  if s.countdown > 0 {
    s.countdown -= 1;
    return;
  }
  let pick = s.switches[s.pos].1 as usize;
  s.pos += 1;
  load_next(s);
  let n = runnable_others(s);
  if n == 0 {
    return;
  }
  let to = nth_other(s, pick % n);
  switch_to(to, kind);
}
/// Whether the calling simulated thread could be switched away from.
#[inline]
pub fn may_switch() -> bool {
  let s = st();
  s.mode == Mode::Threads && TASK.with(|t| t.get()) == s.cur as i32
}
/// A basic block at which the plan wants another thread to go on.
pub fn block_point(pick: u8) {
  let s = st();
  let _g = nohook();
  s.by_kind[YK_BLOCK as usize] += 1;
  s.yields += 1;
  if s.yields > s.budget {
    crate::runner::die_hang("yield budget exhausted");
  }
  let n = runnable_others(s);
  if n > 0 {
    let to = nth_other(s, pick as usize % n);
    switch_to(to, YK_BLOCK);
  }
}
/// The current task cannot proceed until another one does.
pub fn blocked_point() {
  let s = st();
  if s.mode == Mode::Off {
    return;
  }
  let _g = nohook();
  s.by_kind[YK_LOCK as usize] += 1;
  s.yields += 1;
  if s.yields > s.budget {
    crate::runner::die_hang("yield budget exhausted");
  }
  s.blocked_streak += 1;
  if s.blocked_streak > 64 * (s.done.len() as u32 + 1) {
    crate::runner::die_violation("deadlock", "every task waits for a lock");
  }
  if runnable_others(s) > 0 {
    let to = nth_other(s, 0);
    switch_to(to, YK_LOCK);
  }
}
fn switch_to(to: usize, kind: u32) {
  let s = st();
  s.nswitches += 1;
  s.hash = mix(s.hash ^ ((s.cur as u64) << 32 | (to as u64) << 16 | kind as u64) ^ (s.yields << 40));
  s.next = to;
  match s.mode {
    Mode::Coro => suspend(kind),
    Mode::Threads => {
      let me = s.cur as u32;
      pass_baton(to as u32);
      wait_baton(me);
    }
    Mode::Off => {}
  }
}
fn suspend(_kind: u32) {
  let s = st();
  let me = s.cur;
  s.flags[me] = (IN_SUT.with(|c| c.get()), NOHOOK.with(|c| c.get()));
  let y = s.yielders[me];
  unsafe { (*y).suspend(()) };
  let s = st();
  IN_SUT.with(|c| c.set(s.flags[me].0));
  NOHOOK.with(|c| c.set(s.flags[me].1));
}
fn reset(mode: Mode, n: usize, sw: &Switches, abandon: &[Abandon]) {
  let s = st();
  s.mode = mode;
  s.switches = sw.clone();
  s.pos = 0;
  s.done = vec![false; n];
  s.cur = 0;
  s.next = 0;
  s.yielders = vec![std::ptr::null(); n];
  s.flags = vec![(false, 0); n];
  s.counts = vec![0; n];
  s.abandon = abandon.to_vec();
  s.abandon_now = false;
  s.abandoned = vec![false; n];
  s.blocked_streak = 0;
  load_next(s);
}

/// Whether the current coroutine is being torn down (its frames are being unwound by force).
pub fn being_abandoned() -> bool {
  let s = st();
  s.mode == Mode::Coro && s.cur < s.abandoned.len() && s.abandoned[s.cur]
}

pub fn run_coros(tasks: Vec<Box<dyn FnOnce()>>, sw: &Switches, abandon: &[Abandon]) {
  let n = tasks.len();
  reset(Mode::Coro, n, sw, abandon);
  let mut cs: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = tasks
    .into_iter()
    .enumerate()
    .map(|(i, f)| {
      let stack = DefaultStack::new(4 << 20).expect("stack");
      Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        st().yielders[i] = y as *const _;
        f();
      }))
    })
    .collect();
  loop {
    let s = st();
    if s.done.iter().all(|d| *d) {
      break;
    }
    let mut i = s.next;
    if s.done[i] {
      s.cur = i;
      i = nth_other(s, 0);
    }
    s.cur = i;
    TASK.with(|t| t.set(i as i32));
    let r = cs[i].as_mut().unwrap().resume(());
    TASK.with(|t| t.set(-1));
    IN_SUT.with(|c| c.set(false));
    NOHOOK.with(|c| c.set(0));
    let s = st();
    match r {
      CoroutineResult::Yield(()) => {
        if s.abandon_now {
          s.abandon_now = false;
          s.abandoned[i] = true;
          let f = s.flags[i];
          IN_SUT.with(|c| c.set(f.0));
          NOHOOK.with(|c| c.set(f.1));
          TASK.with(|t| t.set(i as i32));
          cs[i].as_mut().unwrap().force_unwind();
          TASK.with(|t| t.set(-1));
          IN_SUT.with(|c| c.set(false));
          NOHOOK.with(|c| c.set(0));
          cs[i] = None;
          st().done[i] = true;
        }
      }
      CoroutineResult::Return(()) => {
        cs[i] = None;
        s.done[i] = true;
        s.next = i;
      }
    }
  }
  st().mode = Mode::Off;
}

// ------------------------------------------------------------------ threads
static BATON: AtomicU32 = AtomicU32::new(u32::MAX);
static READY: AtomicU32 = AtomicU32::new(0);
const MAIN: u32 = 0xffff;
fn futex_wait(a: &AtomicU32, v: u32) {
  unsafe {
    crate::sys::raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAIT as i64, v as i64, 0, 0, 0);
  }
}
fn futex_wake(a: &AtomicU32) {
  unsafe {
    crate::sys::raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
  }
}
fn pass_baton(to: u32) {
  if to != MAIN {
    st().cur = to as usize;
  }
  BATON.store(to, SeqCst);
  futex_wake(&BATON);
}
fn wait_baton(me: u32) {
  loop {
    let v = BATON.load(SeqCst);
    if v == me {
      return;
    }
    futex_wait(&BATON, v);
  }
}
pub fn run_threads(tasks: Vec<Box<dyn FnOnce() + Send>>, sw: &Switches) {
  let n = tasks.len();
  reset(Mode::Threads, n, sw, &[]);
  BATON.store(u32::MAX, SeqCst);
  READY.store(0, SeqCst);
  crate::alloc::paused(|| for (i, f) in tasks.into_iter().enumerate() {
    std::thread::Builder::new()
      .stack_size(16 << 20)
      .spawn(move || {
        TASK.with(|t| t.set(i as i32));
        READY.fetch_add(1, SeqCst);
        futex_wake(&READY);
        wait_baton(i as u32);
        f();
        let _g = nohook();
        let s = st();
        s.done[i] = true;
        s.blocked_streak = 0;
        let to = if runnable_others(s) == 0 { MAIN } else { nth_other(s, 0) as u32 };
        pass_baton(to);
        // never exit: thread teardown would run concurrently with the next task
        let never = AtomicU32::new(0);
        loop {
          futex_wait(&never, 0);
        }
      })
      .expect("spawn");
    while READY.load(SeqCst) != i as u32 + 1 {
      futex_wait(&READY, i as u32);
    }
  });
  pass_baton(0);
  wait_baton(MAIN);
  st().mode = Mode::Off;
}
