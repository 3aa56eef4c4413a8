// One run: the shared parsers, their callers and the judgement. Included once per element type `E`.
struct Sim {
  plan: Plan,
  focus: Focus,
  slices: Vec<(&'static [E], usize)>,
  want: Vec<Outcome>,
  /// Steps of the interpreter.
  cost: Vec<u64>,
  built: Option<Built>,
  done: u64,
  thrown: u64,
  failures: u64,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
fn sim() -> &'static mut Sim {
  unsafe { &mut *SIM }
}

fn slice(inputs: &[&'static [E]], o: &Op) -> Option<(&'static [E], usize)> {
  let s = inputs.get(o.i as usize)?;
  let to = (o.to as usize).min(s.len());
  let from = (o.from as usize).min(to);
  let s = &s[from..to];
  let start = if o.api % 3 == 0 { (o.start as usize).min(s.len()) } else { 0 };
  Some((s, start))
}
/// Runs one parse and describes what came out of it.
fn parse(p: &P, o: &Op, s: &'static [E], start: usize) -> Result<Outcome, u32> {
  let r = sut_catch(|| {
    let own;
    let p = if o.clone {
      own = p.clone();
      &own
    } else {
      p
    };
    match o.api % 3 {
      0 => p.run(&ParseState::new(s, start)),
      1 => p.parse(s),
      _ => match p.parse_as_result(s) {
        Ok(v) => ParseResult::successful(v, usize::MAX),
        Err(e) => ParseResult::failed_with_uncommitted(e),
      },
    }
  });
  let as_result = o.api % 3 == 2;
  match r {
    Err(Panic::Thrown(n)) => Err(n),
    Err(Panic::Own(m)) => Ok(Outcome { panic: Some(m), ..Default::default() }),
    Ok(ParseResult::Success { value, length }) => Ok(Outcome {
      ok: Some((value.h, if as_result { None } else { Some(length) })),
      shown: format!("{:?}", value).chars().take(250).collect(),
      ..Default::default()
    }),
    Ok(ParseResult::Failure { error, committed_status }) => {
      if sim().focus.render {
        render(&error, s);
      }
      Ok(Outcome {
        err: Some((if as_result { None } else { Some(committed_status.is_committed()) }, format!("{:?}", error))),
        ..Default::default()
      })
    }
  }
}
/// The error can be rendered, its excerpt lies inside the input.
fn render(e: &ParseError<'static, E>, s: &'static [E]) {
  let r = sut_catch(|| (format!("{}", e), e.input(), e.input_string()));
  let l = live();
  match r {
    Err(p) => l.out.violate("error-rendering", format!("rendering {:?} panics: {:?}", e, p)),
    Ok((_, ex, st)) => {
      l.out.probe("errors-rendered", 1);
      if let Some(x) = ex {
        let inside = |o: &[E]| {
          let (a, b) = (o.as_ptr() as usize, o.as_ptr() as usize + std::mem::size_of_val(o));
          let p = x.as_ptr() as usize;
          a <= p && p + std::mem::size_of_val(x) <= b
        };
        if !inside(s) && !inside(FOREIGN) {
          l.out.violate("excerpt-outside", format!("the excerpt of {:?} is not part of the input", e));
        }
      }
      if st.is_some() != ex.is_some() || st.map_or(false, |t| t != excerpt_text(ex.unwrap())) {
        l.out.violate("excerpt-text", format!("the excerpt text of {:?} is not its excerpt", e));
      }
    }
  }
}
/// One simulated caller's parse of the shared value.
fn run_op(ix: usize) {
  let sm = sim();
  let o = sm.plan.ops[ix].clone();
  let (s, start) = sm.slices[ix];
  let b = sm.built.as_ref().unwrap();
  let depth = {
    let f = frames();
    f.push(Frame { op: ix, ..Default::default() });
    f.len()
  };
  let l = live();
  l.max_depth = l.max_depth.max(depth);
  let got = parse(&b.tops[o.p as usize], &o, s, start);
  if let Some(mut f) = frames().pop() {
    if got.is_ok() {
      missing(&mut f);
    }
  }
  let sm = sim();
  match got {
    Err(_) => sm.thrown += 1,
    Ok(got) => {
      sm.done += 1;
      sm.failures += got.err.is_some() as u64;
      live().out.observe(&got.text());
      judge(ix, &got, "");
    }
  }
}
/// One operation many times over.
fn storm(st: &Storm) {
  const FAR: u32 = 1_000_000;
  let ix = st.op as usize;
  let sm = sim();
  // in proportion to what one of them costs
  let n = (st.times as u64).min(1 + 400_000 / (sm.cost[ix] + 1)).min(300);
  let t = TASK.with(|t| t.get());
  let calls = live().set_calls(t, FAR);
  if let Some(k) = st.panic {
    live().panics.push((t as u8, FAR + k));
  }
  for _ in 0..n {
    live().set_calls(t, FAR);
    run_op(ix);
    if live().out.violation.is_some() {
      break;
    }
  }
  let l = live();
  l.set_calls(t, calls);
  l.panics.retain(|p| p.1 < FAR);
  l.out.fault(if st.panic.is_some() { "parse:panic-storm" } else { "parse:storm" }, n);
}
fn judge(ix: usize, got: &Outcome, when: &str) {
  let sm = sim();
  let want = &sm.want[ix];
  if !got.same(want) {
    let o = &sm.plan.ops[ix];
    let class = match (&got.panic, &got.ok, &want.ok) {
      (Some(_), _, _) => "panic",
      (_, Some(_), Some(_)) => "wrong-value",
      (_, None, None) => "wrong-error",
      (_, Some(_), None) => "accepted",
      _ => "rejected",
    };
    let text: String = sm.slices[ix].0.iter().take(200).map(|e| to_c(*e)).collect();
    live().out.violate(
      class,
      format!(
        "parse {}{} of {:?} at {} by {}: got {}; should be {}",
        ix,
        when,
        text,
        sm.slices[ix].1,
        serde_json::to_string(&sm.plan.tops[o.p as usize]).unwrap().chars().take(400).collect::<String>(),
        got.text(),
        want.text()
      ),
    );
  }
}

// ------------------------------------------------------------------ the run
pub fn run(p: Plan, focus: Focus) -> RunOut {
  if !valid(&p.rules, &p.tops) || p.ops.iter().any(|o| o.p as usize >= p.tops.len()) {
    return RunOut::default();
  }
  let inputs: Vec<&'static [E]> = p
    .inputs
    .iter()
    .map(|i| -> &'static [E] { Box::leak(i.text.repeat(i.rep as usize).chars().map(to_e).collect::<Vec<_>>().into_boxed_slice()) })
    .collect();
  if inputs.iter().any(|i| i.len() > 20_000) {
    return RunOut::default();
  }
  let mut slices = vec![];
  for o in &p.ops {
    match slice(&inputs, o) {
      Some(s) => slices.push(s),
      None => return RunOut::default(),
    }
  }
  begin(1);
  let n_ops = p.ops.len();
  unsafe {
    SIM = Box::into_raw(Box::new(Sim {
      plan: p.clone(),
      focus,
      slices,
      want: vec![],
      cost: vec![],
      built: None,
      done: 0,
      thrown: 0,
      failures: 0,
    }))
  };
  let sm = sim();
  // what each parse should give
  let mut modelled = vec![];
  let mut rejected = 0;
  for (ix, o) in p.ops.iter().enumerate() {
    let (s, start) = sm.slices[ix];
    let chars: Vec<char> = s.iter().map(|e| to_c(*e)).collect();
    let mut m = Model { rules: &p.rules, inp: &chars, pol: p.pol, fuel: 25_000, rejected: 0 };
    let as_result = o.api % 3 == 2;
    let w = match m.ev(&p.tops[o.p as usize], start) {
      Ok((v, n)) => Outcome {
        ok: Some((v.h, if as_result { None } else { Some(n) })),
        shown: format!("{:?}", v).chars().take(250).collect(),
        ..Default::default()
      },
      Err(No::Fail(c)) => Outcome { err: Some((if as_result { None } else { Some(c) }, String::new())), ..Default::default() },
      Err(No::Fuel) => return RunOut::default(),
    };
    rejected += m.rejected;
    sm.cost.push(25_000 - m.fuel as u64);
    modelled.push(w);
  }
  log::set_max_level(log::LevelFilter::Off);
  if focus.sink {
    let _ = log::set_logger(&SINK_);
  }
  let l = live();
  l.out = RunOut::default();
  match focus.fresh {
    None => sm.want = modelled.clone(),
    Some(cached) => {
      for (ix, o) in p.ops.iter().enumerate() {
        let (s, start) = sm.slices[ix];
        let b = sut(|| Built::new(&p.rules, &p.tops, cached, Probe::No, p.pol));
        let w = parse(&b.tops[o.p as usize], o, s, start).unwrap_or_default();
        drop(b);
        sm.want.push(w);
      }
    }
  }
  sm.built = Some(sut(|| Built::new(&p.rules, &p.tops, focus.fresh != Some(false) || focus.probe == Probe::Cache, focus.probe, p.pol)));
  // live
  l.on = true;
  l.panics = p.panics.clone();
  l.clone_panics = p.clone_panics;
  l.nests = p.nests.iter().filter(|x| (x.1 as usize) < n_ops).map(|x| (x.0, x.1 as usize)).collect();
  l.flips = p.flips.clone();
  l.nested = Some(run_op);
  if focus.sink {
    log::set_max_level(level(p.level));
  }
  let tasks: Vec<Box<dyn FnOnce()>> = p
    .tasks
    .iter()
    .enumerate()
    .map(|(ti, steps)| -> Box<dyn FnOnce()> {
      let steps = steps.clone();
      let me = ti;
      Box::new(move || {
        for (i, s) in steps.into_iter().enumerate() {
          for st in sim().plan.storms.clone() {
            if st.task as usize == me && st.step as usize == i && (st.op as usize) < n_ops {
              sched::yield_point(YK_OP);
              storm(&st);
            }
          }
          if (s as usize) < n_ops {
            sched::yield_point(YK_OP);
            run_op(s as usize);
          }
        }
      })
    })
    .collect();
  if tasks.len() == 1 && p.abandon.is_empty() {
    TASK.with(|t| t.set(0));
    tasks.into_iter().for_each(|t| t());
  } else {
    sched::run_coros(tasks, &p.switches, &p.abandon);
  }
  TASK.with(|t| t.set(0));
  let l = live();
  let abandoned = sched::st().abandoned.iter().filter(|a| **a).count() as u64;
  l.out.fault("caller:abandoned", abandoned);
  l.on = false;
  log::set_max_level(log::LevelFilter::Off);
  // afterwards the shared values answer as ever
  if l.out.violation.is_none() {
    for (ix, o) in p.ops.iter().enumerate() {
      let (s, start) = sm.slices[ix];
      let b = sm.built.as_ref().unwrap();
      if let Ok(got) = parse(&b.tops[o.p as usize], o, s, start) {
        judge_quiet(ix, &got, &modelled[ix], focus);
      }
    }
  }
  sm.built = None;
  if focus.leaks {
    let l = live();
    if l.double_drop > 0 {
      l.out.violate("double-drop", format!("{} values were dropped twice", l.double_drop));
    }
    if l.living != 0 {
      l.out.violate("leak", format!("{} values are alive after every parser and result is gone", l.living));
    }
  }
  let l = live();
  let mut out = std::mem::take(&mut l.out);
  let mut caches = 0;
  let mut logs = 0;
  for g in p.rules.iter().chain(&p.tops) {
    any(g, &mut |g| {
      caches += matches!(g, G::Cache(_)) as u64;
      logs += matches!(g, G::Log(..)) as u64;
    });
  }
  out.probe("parses", sm.done);
  out.probe("parses:failing", sm.failures);
  out.probe("parses:panicked", sm.thrown);
  out.probe("user-code-calls", l.user_calls);
  out.probe("log-records", l.records);
  out.probe("caches", caches);
  out.probe("nesting:2+", (l.max_depth > 1) as u64);
  let cuts = p.ops.iter().filter(|o| (o.to as usize) < inputs[o.i as usize].len()).count() as u64;
  if focus.render {
    out.fault("input:cut", cuts);
  }
  let overlapping = sched::st().nswitches > 0 || l.max_depth > 1;
  out.nontrivial = match (focus.probe, focus.leaks, focus.render) {
    (Probe::Cache, _, _) => caches > 0 && sm.done > 0,
    (Probe::Log, _, _) => l.records > 0,
    (_, true, _) => sm.thrown > 0,
    (_, _, true) => rejected > 0 || cuts > 0,
    _ => overlapping || abandoned > 0 || sm.done > 1,
  };
  let sh = mix(g::shape(&p.rules, &p.tops) ^ hash_str(&format!("{:?}", p.inputs)));
  finish(&mut out, sh);
  let _ = logs;
  out
}
fn judge_quiet(ix: usize, got: &Outcome, modelled: &Outcome, focus: Focus) {
  if focus.fresh.is_some() {
    judge(ix, got, " (afterwards)");
  }
  if focus.model {
    // the interpreter does not predict error texts
    let blank = |o: &Outcome| Outcome { err: o.err.as_ref().map(|e| (e.0, String::new())), ..o.clone() };
    let (a, b) = (blank(got), blank(modelled));
    if !a.same(&b) {
      sim().want[ix] = b;
      judge(ix, &a, " (against the reference interpreter)");
    }
  }
}

