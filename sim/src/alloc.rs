//! Global allocator of the harness binary. During a run (in its forked process) everything is allocated from an arena
//! at a fixed address, so that addresses repeat from run to run and process to process; allocations made by the code
//! under test are counted, bounded (endless-work detection by a deterministic budget) and, for the thread
//! scheduler, pre-emption points.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 6 << 30;
const CLASSES: usize = 40;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static BUMP: AtomicUsize = AtomicUsize::new(BASE);
static FREE: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];
pub static SUT_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static BYTES_BUDGET: AtomicU64 = AtomicU64::new(4 << 30);
/// Pre-emption at allocations is on.
pub static PREEMPT: AtomicBool = AtomicBool::new(false);

thread_local! {
  /// The current thread (task) is inside the code under test.
  pub static IN_SUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
  /// Harness code is running on behalf of the code under test: do not count, do not pre-empt.
  pub static NOHOOK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn reserve() {
  unsafe {
    let p = libc::mmap(
      BASE as *mut _,
      SIZE,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
      -1,
      0,
    );
    if p as usize != BASE {
      eprintln!("onisim: cannot reserve the arena");
      std::process::exit(2);
    }
  }
}
pub fn activate() {
  ON.store(true, SeqCst);
}
/// Runs `f` with the arena off (thread start-up runs concurrently with its creator).
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
  let was = ON.swap(false, SeqCst);
  let r = f();
  ON.store(was, SeqCst);
  r
}
pub struct NoHook;
pub fn nohook() -> NoHook {
  NOHOOK.with(|c| c.set(c.get() + 1));
  NoHook
}
impl Drop for NoHook {
  fn drop(&mut self) {
    NOHOOK.with(|c| c.set(c.get() - 1));
  }
}

fn class(n: usize) -> usize {
  let n = n.max(16);
  (usize::BITS - (n - 1).leading_zeros()) as usize
}
fn lock() {
  while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
    core::hint::spin_loop();
  }
}
fn unlock() {
  LOCK.store(false, Release);
}
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
  let c = class(l.size().max(l.align()));
  if c >= CLASSES {
    return std::ptr::null_mut();
  }
  lock();
  let head = FREE[c].load(Relaxed);
  let p = if head != 0 {
    FREE[c].store(*(head as *const usize), Relaxed);
    head
  } else {
    let sz = 1usize << c;
    let al = sz.min(4096).max(l.align());
    let cur = BUMP.load(Relaxed);
    let start = (cur + al - 1) & !(al - 1);
    if start + sz > BASE + SIZE {
      unlock();
      return std::ptr::null_mut();
    }
    BUMP.store(start + sz, Relaxed);
    start
  };
  unlock();
  p as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
  let c = class(l.size().max(l.align()));
  lock();
  *(p as *mut usize) = FREE[c].load(Relaxed);
  FREE[c].store(p as usize, Relaxed);
  unlock();
}
#[inline]
fn hook(size: usize) {
  if IN_SUT.with(|c| c.get()) && NOHOOK.with(|c| c.get()) == 0 {
    let n = SUT_ALLOCS.fetch_add(1, Relaxed);
    let b = LIVE_BYTES.fetch_add(size as u64, Relaxed);
    if n > ALLOC_BUDGET.load(Relaxed) || b > BYTES_BUDGET.load(Relaxed) {
      crate::runner::die_hang("allocation budget exhausted");
    }
    if PREEMPT.load(Relaxed) {
      crate::sched::yield_point(crate::sched::YK_ALLOC);
    }
  }
}
unsafe impl GlobalAlloc for SimAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if ON.load(Relaxed) {
      hook(l.size());
      arena_alloc(l)
    } else {
      System.alloc(l)
    }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let a = p as usize;
    if a >= BASE && a < BASE + SIZE {
      arena_free(p, l)
    } else if !ON.load(Relaxed) {
      System.dealloc(p, l)
    }
  }
}
