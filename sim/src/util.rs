//! Calling the code under test: marks it for the seams, catches its panics, lets forced unwinding (abandonment) through.
use crate::alloc::IN_SUT;
use crate::runner::RunOut;
use crate::sched;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Payload of panics thrown on purpose by simulated user code.
pub struct Thrown(pub u32);

struct Flag(bool);
impl Drop for Flag {
  fn drop(&mut self) {
    IN_SUT.with(|c| c.set(self.0));
  }
}
/// Runs code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
  let _f = Flag(IN_SUT.with(|c| c.replace(true)));
  f()
}
/// Runs harness code called back from the code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
  let _f = Flag(IN_SUT.with(|c| c.replace(false)));
  f()
}
#[derive(Debug, Clone, PartialEq)]
pub enum Panic {
  /// Thrown by simulated user code.
  Thrown(u32),
  /// Raised by the code under test itself.
  Own(String),
}
pub fn sut_catch<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
  match catch_unwind(AssertUnwindSafe(|| sut(f))) {
    Ok(r) => Ok(r),
    Err(e) => {
      if sched::being_abandoned() {
        resume_unwind(e);
      }
      if let Some(t) = e.downcast_ref::<Thrown>() {
        return Err(Panic::Thrown(t.0));
      }
      let m = e
        .downcast_ref::<String>()
        .cloned()
        .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
      Err(Panic::Own(m))
    }
  }
}
/// Copies what the seams recorded into the result of the run.
pub fn finish(out: &mut RunOut, shape: u64) {
  let s = sched::st();
  let w = crate::sys::world();
  out.ilv = s.hash;
  out.steps += s.yields + w.events;
  out.fault("preempt:switch", s.nswitches);
  out.fault("preempt:at-block", s.by_kind[sched::YK_BLOCK as usize]);
  for (k, n) in w.fault_hits.clone() {
    out.fault(&k, n);
  }
  let mut h = crate::rng::mix(shape ^ s.hash);
  for (k, v) in &out.faults {
    h = crate::rng::mix(h ^ crate::rng::hash_str(k) ^ (*v).min(8));
  }
  out.fp = crate::rng::mix(h ^ out.obs);
  out.obs = crate::rng::mix(out.obs ^ s.hash ^ w.ev_hash);
}
/// Starts the simulated world of one run; the calling thread is task 0.
pub fn begin(hash_seed: u64) {
  let w = crate::sys::world();
  w.on = true;
  w.hash_seed = hash_seed;
  w.clock_ns = 1_700_000_000_000_000_000;
  crate::sys::TASK.with(|t| t.set(0));
}
/// Prints texts while replaying (ONISIM_TEXT).
pub static VERBOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
