//! What every basic block of the code under test calls. A crate of its own: it is compiled without checks.
#![no_std]
pub const MAX: usize = 1 << 17;
static mut FIRST: [u8; MAX] = [0; MAX];
/// One byte for each block: whether it was reached.
pub static mut MAP: *mut u8 = &raw mut FIRST as *mut u8;
/// How many blocks there are. They are numbered from 1.
pub static mut BLOCKS: u32 = 0;
/// Called at every block, while set.
pub static mut HOOK: Option<fn(usize)> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
  let mut p = start;
  if start == stop || *start != 0 {
    return;
  }
  while p < stop {
    BLOCKS += 1;
    *p = BLOCKS;
    p = p.add(1);
  }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
  let i = *g as usize;
  let m = MAP.add(i & (MAX - 1));
  // a write would take the memory away from the other processes
  if *m == 0 {
    *m = 1;
  }
  if let Some(f) = HOOK {
    f(i);
  }
}
