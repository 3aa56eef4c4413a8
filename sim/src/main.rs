//! onisim: deterministic simulation with fault injection for oni-comb-rs. See /verif/DESIGN.md.
mod alloc;
mod cov;
mod cron;
mod hocon;
mod parse;
mod rng;
mod runner;
mod sched;
mod sys;
mod util;
mod x01;

use runner::{Scenario, Tier};

fn scenarios() -> Vec<Scenario> {
  let mut v = vec![];
  v.extend(cron::scenarios());
  v.extend(hocon::scenarios());
  v.extend(parse::scenarios());
  v.extend(x01::scenarios());
  v
}

/// Address-space randomisation off: one seed must be one execution, also where addresses show (cache keys, hash orders).
fn fix_addresses() {
  unsafe {
    let cur = libc::personality(0xffff_ffff);
    if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("ONISIM_ASLR").is_none() {
      if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe")
          .args(std::env::args_os().skip(1))
          .env("ONISIM_ASLR", "1")
          .exec();
        eprintln!("onisim: re-exec failed: {}", e);
      }
    }
  }
}

fn main() {
  fix_addresses();
  alloc::reserve();
  util::VERBOSE.store(std::env::var_os("ONISIM_TEXT").is_some(), std::sync::atomic::Ordering::Relaxed);
  let args: Vec<String> = std::env::args().collect();
  let scs = scenarios();
  let find = |id: &str| -> &Scenario {
    match scs.iter().find(|s| s.id == id) {
      Some(s) => s,
      None => {
        eprintln!("onisim: unknown property {}", id);
        std::process::exit(2)
      }
    }
  };
  let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
  let tier = match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
    Some("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  // What std remembers about the kernel (whether statx exists) must not depend on the command that is run.
  std::fs::metadata("/").ok();
  let code = match args.get(1).map(|s| s.as_str()) {
    Some("check") => runner::cmd_check(
      find(&args[2]),
      tier,
      opt("--runs").map(|s| s.parse().unwrap()),
      opt("--wall").map(|s| s.parse().unwrap()),
    ),
    Some("replay") => runner::cmd_replay(&scs, &args[2]),
    Some("gen") => {
      runner::cmd_gen(find(&args[2]), args[3].parse().unwrap(), tier);
      0
    }
    Some("run") => {
      runner::cmd_run(find(&args[2]), args[3].parse().unwrap(), tier);
      0
    }
    Some("records") => {
      runner::cmd_records(find(&args[2]), args[3].parse().unwrap(), tier);
      0
    }
    Some("list") => {
      for s in &scs {
        println!("{}", s.id);
      }
      0
    }
    _ => {
      eprintln!("usage: onisim check ID [--tier quick|thorough] [--runs N] [--wall S] | replay FILE | gen ID I | run ID I | records ID N | list");
      2
    }
  };
  std::process::exit(code)
}
