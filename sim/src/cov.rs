//! Basic blocks of the code under test: the four crates are compiled with a call at every block. While simulated threads
//! run, a block is a point of pre-emption; always, the blocks reached are counted.
use crate::alloc::{IN_SUT, NOHOOK};
use serde::{Deserialize, Serialize};

use blocks::{BLOCKS, HOOK, MAP, MAX};

/// A switch of threads at a block.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
  /// After so many further blocks, to the given other thread.
  After(u32, u8),
  /// At the given visit of the block reached as the i-th new one; visit 255: at every visit.
  Block(u16, u8, u8),
}
pub struct Blocks {
  plan: Vec<At>,
  seq: Vec<(u32, u8)>,
  pos: usize,
  countdown: u32,
  order: Vec<u16>,
  visits: Vec<u8>,
  next: u16,
  idle: u32,
  forced: u32,
  pub events: u64,
}
static mut B: Blocks = Blocks {
  plan: vec![],
  seq: vec![],
  pos: 0,
  countdown: 0,
  order: vec![],
  visits: vec![],
  next: 0,
  idle: 0,
  forced: 0,
  events: 0,
};
#[allow(static_mut_refs)]
pub fn blocks() -> &'static mut Blocks {
  unsafe { &mut B }
}
/// From here on the blocks reached are recorded in memory that forked processes share.
pub fn share() {
  unsafe {
    let p = libc::mmap(
      std::ptr::null_mut(),
      MAX,
      libc::PROT_READ | libc::PROT_WRITE,
      libc::MAP_SHARED | libc::MAP_ANONYMOUS,
      -1,
      0,
    );
    if p != libc::MAP_FAILED {
      MAP = p as *mut u8;
    }
  }
}
/// Blocks reached by any process since `share`, and all blocks.
pub fn reached() -> (usize, usize) {
  unsafe {
    let n = BLOCKS as usize;
    ((1..=n.min(MAX - 1)).filter(|i| *MAP.add(*i) != 0).count(), n)
  }
}
static mut PCS: [(usize, usize, usize); 4096] = [(0, 0, 0); 4096];
static mut NPCS: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
  let n = (stop as usize - start as usize) / 16;
  // the counters of the same object were numbered just before
  if n > 0 && NPCS < 4096 {
    PCS[NPCS] = (start as usize, n, BLOCKS as usize + 1 - n);
    NPCS += 1;
  }
}
/// Addresses of the blocks and whether each was reached (for tools/blocks.sh).
pub fn dump(path: &str) {
  let mut s = String::new();
  unsafe {
    for k in 0..NPCS {
      let (start, n, first) = PCS[k];
      for i in 0..n {
        let pc = *((start + 16 * i) as *const usize);
        let id = first + i;
        s += &format!("{:x} {}\n", pc, id < MAX && *MAP.add(id) != 0);
      }
    }
  }
  std::fs::write(path, s).ok();
}
/// While `f` runs, simulated threads are switched at blocks as the plan says.
pub fn with_blocks<R>(plan: &[At], f: impl FnOnce() -> R) -> R {
  let b = blocks();
  b.plan = plan.iter().filter(|a| matches!(a, At::Block(..))).cloned().collect();
  b.seq = plan.iter().filter_map(|a| if let At::After(n, p) = a { Some((*n, *p)) } else { None }).collect();
  b.pos = 0;
  b.countdown = b.seq.first().map(|x| x.0).unwrap_or(u32::MAX);
  b.order = vec![0; unsafe { BLOCKS } as usize + 1];
  b.visits = vec![0; unsafe { BLOCKS } as usize + 2];
  b.next = 0;
  b.idle = 0;
  b.forced = 0;
  unsafe { HOOK = Some(at_block) };
  let r = f();
  unsafe { HOOK = None };
  r
}
fn at_block(i: usize) {
  if IN_SUT.with(|c| c.get()) && NOHOOK.with(|c| c.get()) == 0 {
    block(i);
  }
}
/// No allocation here: it would be a point of pre-emption itself.
fn block(i: usize) {
  if !crate::sched::may_switch() {
    return;
  }
  let b = blocks();
  b.events += 1;
  b.idle += 1;
  if i < b.order.len() {
    if b.order[i] == 0 {
      b.next = b.next.saturating_add(1);
      b.order[i] = b.next;
    }
    let o = b.order[i];
    let v = b.visits[o as usize];
    b.visits[o as usize] = v.saturating_add(1);
    for a in &b.plan {
      if let At::Block(x, n, pick) = a {
        if *x + 1 == o && (if *n == 255 { b.forced < 400 } else { *n == v }) {
          b.forced += 1;
          let pick = if *n == 255 { v.wrapping_add(*pick) } else { *pick };
          b.idle = 0;
          return crate::sched::block_point(pick);
        }
      }
    }
  }
  if b.pos < b.seq.len() {
    if b.countdown == 0 {
      let pick = b.seq[b.pos].1;
      b.pos += 1;
      b.countdown = b.seq.get(b.pos).map(|x| x.0).unwrap_or(u32::MAX);
      b.idle = 0;
      return crate::sched::block_point(pick);
    }
    b.countdown -= 1;
  }
  // a thread that waits for another one without calling out must not wait for ever
  if b.idle > 1_500_000 {
    b.idle = 0;
    crate::sched::block_point(0);
  }
}
pub fn gen_at(r: &mut crate::rng::Rng) -> Vec<At> {
  let mut v = vec![];
  if r.chance(60) {
    let gap = *r.pick(&[20u64, 300, 5000]);
    for _ in 0..1 + r.usize(40) {
      v.push(At::After(r.logn(gap) as u32, r.below(4) as u8));
    }
  }
  if r.chance(60) {
    for _ in 0..1 + r.usize(8) {
      let visit = if r.chance(35) { 255 } else { r.logn(60) as u8 };
      let among = *r.pick(&[400u64, 1500, 4000]);
      v.push(At::Block(r.below(among) as u16, visit, r.below(4) as u8));
    }
  }
  v
}
