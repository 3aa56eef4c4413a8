// Builds a grammar out of the real combinators. Included once per element type `E`.
pub type P = Parser<'static, E, V>;

pub struct Env {
  rules: RefCell<Vec<P>>,
  pub cached: bool,
  pub probe: Probe,
  pub pol: Policy,
  instances: Cell<u32>,
}
pub struct Built {
  pub env: Rc<Env>,
  pub tops: Vec<P>,
}
impl Built {
  pub fn new(rules: &[G], tops: &[G], cached: bool, probe: Probe, pol: Policy) -> Built {
    let env = Rc::new(Env { rules: RefCell::new(vec![]), cached, probe, pol, instances: Cell::new(0) });
    for g in rules {
      let p = build(&env, g);
      env.rules.borrow_mut().push(p);
    }
    let tops = tops.iter().map(|g| build(&env, g)).collect();
    Built { env, tops }
  }
}
impl Drop for Built {
  fn drop(&mut self) {
    // the rules refer to each other through the environment
    let r = std::mem::take(&mut *self.env.rules.borrow_mut());
    drop(r);
  }
}
fn call(id: u16) {
  user_code_id(CALLBACK, id as u32)
}
fn error(kind: u8) -> ParseError<'static, E> {
  match kind % 5 {
    0 => ParseError::of_custom(3, None, "own".into()),
    1 => ParseError::of_in_complete(),
    2 => ParseError::of_mismatch(FOREIGN, 3, 9, "own".into()),
    3 => ParseError::of_conversion(FOREIGN, 7, 1, "own".into()),
    _ => ParseError::of_expect(1, Box::new(ParseError::of_mismatch(FOREIGN, 1, 2, "own".into())), "own".into()),
  }
}
fn el(c: &Cls, by_ref: bool) -> P {
  let r = |p: Parser<'static, E, &'static E>| p.map(|c| V::c(to_c(*c)));
  let v = |p: Parser<'static, E, E>| p.map(|c| V::c(to_c(c)));
  macro_rules! set {
    ($neg:expr, $s:expr) => {{
      let s = $s;
      match ($neg, by_ref) {
        (false, true) => r(elm_ref_of(s)),
        (false, false) => v(elm_of(s)),
        (true, true) => r(none_ref_of(s)),
        (true, false) => v(none_of(s)),
      }
    }};
  }
  fn keep<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
  }
  match (c, by_ref) {
    (Cls::Any, true) => r(elm_any_ref()),
    (Cls::Any, false) => v(elm_any()),
    (Cls::Is(x), true) => r(elm_ref(to_e(*x))),
    (Cls::Is(x), false) => v(elm(to_e(*x))),
    (Cls::In(a, b), true) => r(elm_in_ref(to_e(*a), to_e(*b))),
    (Cls::In(a, b), false) => v(elm_in(to_e(*a), to_e(*b))),
    (Cls::Until(a, b), true) => r(elm_from_until_ref(to_e(*a), to_e(*b))),
    (Cls::Until(a, b), false) => v(elm_from_until(to_e(*a), to_e(*b))),
    (Cls::Of(i), _) => named_set!(set, false, SETS[*i as usize % SETS.len()]),
    (Cls::NoneOf(i), _) => named_set!(set, true, SETS[*i as usize % SETS.len()]),
    (Cls::Slice(neg, i), _) => {
      let s: Vec<E> = SETS[*i as usize % SETS.len()].chars().map(to_e).collect();
      let s: &'static [E] = Box::leak(s.into_boxed_slice());
      set!(*neg, s)
    }
    (Cls::Range(neg, k, a, b), _) => {
      let (a, b) = (to_e(*a), to_e(*b));
      match k % 6 {
        0 => set!(*neg, keep(a..b)),
        1 => set!(*neg, keep(a..=b)),
        2 => set!(*neg, keep(a..)),
        3 => set!(*neg, keep(..b)),
        4 => set!(*neg, keep(..=b)),
        _ => set!(*neg, keep(..)),
      }
    }
    (Cls::Space, true) => r(elm_space_ref()),
    (Cls::Space, false) => v(elm_space()),
    (Cls::MultiSpace, true) => r(elm_multi_space_ref()),
    (Cls::MultiSpace, false) => v(elm_multi_space()),
    (Cls::Alpha, true) => r(elm_alpha_ref()),
    (Cls::Alpha, false) => v(elm_alpha()),
    (Cls::AlphaDigit, true) => r(elm_alpha_digit_ref()),
    (Cls::AlphaDigit, false) => v(elm_alpha_digit()),
    (Cls::Digit, true) => r(elm_digit_ref()),
    (Cls::Digit, false) => v(elm_digit()),
    (Cls::Hex, true) => r(elm_hex_digit_ref()),
    (Cls::Hex, false) => v(elm_hex_digit()),
    (Cls::Oct, true) => r(elm_oct_digit_ref()),
    (Cls::Oct, false) => v(elm_oct_digit()),
    (Cls::Digit19, true) => r(elm_digit_1_9_ref()),
    (Cls::Digit19, false) => v(elm_digit_1_9()),
  }
}
fn fold(cb: u16, f: V) -> impl Fn(V, V) -> V + Clone {
  let op = f.h;
  move |a, b| {
    call(cb);
    V::f(Fold { cb, op }, a, b)
  }
}
fn rep(s: u8, n: u8, m: u8, p: P) -> Parser<'static, E, Vec<V>> {
  let (lo, hi) = bounds(s, n, m);
  match s % 10 {
    0 => p.of_many0(),
    1 => p.of_many1(),
    2 => p.of_count(lo),
    3 => p.of_many_n_m(lo, hi.unwrap()),
    4 => p.repeat(lo..=hi.unwrap()),
    5 => p.repeat(lo..),
    6 => p.repeat(..hi.unwrap() + 1),
    8 => p.repeat(lo),
    9 => p.repeat(..),
    _ => p.repeat(lo..hi.unwrap() + 1),
  }
}
fn rep_sep(s: u8, n: u8, m: u8, p: P, sep: P) -> Parser<'static, E, Vec<V>> {
  let (lo, hi) = bounds(s, n, m);
  match s % 10 {
    0 => p.of_many0_sep(sep),
    1 => p.of_many1_sep(sep),
    2 => p.of_count_sep(lo, sep),
    3 => p.of_many_n_m_sep(lo, hi.unwrap(), sep),
    4 => p.of_rep_sep(lo..=hi.unwrap(), Some(sep)),
    5 => p.of_rep_sep(lo.., Some(sep)),
    6 => p.of_rep_sep(..=hi.unwrap(), Some(sep)),
    8 => p.of_rep_sep(lo, Some(sep)),
    9 => p.of_rep_sep(.., Some(sep)),
    _ => p.of_rep_sep(lo..hi.unwrap() + 1, Some(sep)),
  }
}
pub fn build(e: &Rc<Env>, g: &G) -> P {
  let b = |g: &G| build(e, g);
  match g {
    G::Unit(0) => unit().map(|_| V::u()),
    G::Unit(_) => empty().map(|_| V::u()),
    G::End => end().map(|_| V::u()),
    G::Ok(n) => successful(V::n(*n as usize)),
    G::OkLazy(cb, pure) => {
      let cb = *cb;
      let f = move || {
        call(cb);
        V::m(cb, V::u())
      };
      if *pure {
        P::pure(f)
      } else {
        successful_lazy(f)
      }
    }
    G::Fail(true, k) if k % 2 == 0 => failed_with_commit(error(*k)),
    G::Fail(false, k) if k % 2 == 0 => failed_with_uncommit(error(*k)),
    G::Fail(c, k) => failed(error(*k), (*c).into()),
    G::FailLazy(cb, c, k) => {
      let (cb, c, k) = (*cb, *c, *k);
      failed_lazy(move || {
        call(cb);
        (error(k), c.into())
      })
    }
    G::El(c, r) => el(c, *r),
    G::Pred(cb, c, r) => {
      let (cb, c, pol) = (*cb, c.clone(), e.pol);
      let f = move |x: &E| {
        call(cb);
        pol.pred(cb, &c, to_c(*x))
      };
      if *r {
        elm_pred_ref(f).map(|c| V::c(to_c(*c)))
      } else {
        elm_pred(f).map(|c| V::c(to_c(c)))
      }
    }
    G::Seq(s) => {
      let s: &'static [E] = Box::leak(s.chars().map(to_e).collect::<Vec<_>>().into_boxed_slice());
      seq(s).map(|v| V::s(text(&v)))
    }
    G::Tag(_) | G::TagNc(_) | G::Re(_) => char_only(g),
    G::Take(n) => take(*n as usize).map(|s: &[E]| V::s(text(s))),
    G::Skip(n) => skip(*n as usize).map(|_| V::u()),
    G::While(k, cb, c, n, m) => {
      let (cb, c, pol) = (*cb, c.clone(), e.pol);
      let c2 = c.clone();
      let f = move |x: &E| {
        call(cb);
        pol.pred(cb, &c, to_c(*x))
      };
      // these parsers look for the first match; only what they do from a match on is specified
      let guard = elm_pred(move |x: &E| pol.pred(cb, &c2, to_c(*x))).peek();
      let w = match k % 3 {
        0 => take_while0(f),
        1 => take_while1(f),
        _ => take_while_n_m(*n as usize, *m as usize, f),
      };
      guard * w.map(|s: &[E]| V::s(text(s)))
    }
    G::Till(zero, cb, c) => {
      let (cb, c, pol) = (*cb, c.clone(), e.pol);
      let f = move |x: &E| {
        call(cb);
        pol.pred(cb, &c, to_c(*x))
      };
      let t = if *zero { take_till0(f) } else { take_till1(f) };
      t.map(|s: &[E]| V::s(text(s)))
    }
    G::Map(cb, g) => {
      let cb = *cb;
      b(g).map(move |v| {
        call(cb);
        V::m(cb, v)
      })
    }
    G::Conv(cb, g) => {
      let (cb, pol) = (*cb, e.pol);
      b(g).map_res(move |v| {
        call(cb);
        if pol.no(cb, v.h) {
          if live().on {
            crate::util::harness(|| live().out.fault("user:reject", 1));
          }
          Err("rejected")
        } else {
          Ok(V::m(cb, v))
        }
      })
    }
    G::Filter(cb, not, g) => {
      let (cb, pol) = (*cb, e.pol);
      let f = move |v: &V| {
        call(cb);
        !pol.no(cb, v.h)
      };
      if *not {
        b(g).with_filter_not(f)
      } else {
        b(g).with_filter(f)
      }
    }
    G::Flat(cb, g, conts) => {
      let (cb, conts, e) = (*cb, Rc::new(conts.clone()), e.clone());
      build(&e.clone(), g).flat_map(move |v| {
        call(cb);
        let k = (v.h % conts.len() as u64) as usize;
        build(&e, &conts[k]).map(move |w| V::p(v.clone(), w))
      })
    }
    G::Exists(g) => b(g).exists().map(V::b),
    G::Not(op, g) => if *op { !b(g) } else { b(g).not() }.map(|_| V::u()),
    G::Peek(g) => b(g).peek(),
    G::Opt(g) => b(g).opt().map(V::o),
    G::Attempt(g) => b(g).attempt(),
    G::Collect(g) => b(g).collect().map(|s: &[E]| V::s(text(s))),
    G::Discard(g) => b(g).discard().map(|_| V::u()),
    G::LastOff(g) => b(g).last_offset().map(V::n),
    G::NextOff(g) => b(g).next_offset().map(V::n),
    G::Name(i, g) => b(g).name(["one", "two", "three", "four"][*i as usize % 4]),
    G::Log(l, id, g) => {
      let (l, id) = (*l % 4, *id);
      let mut p = b(g);
      if e.probe == Probe::Log {
        let inner = p;
        p = Parser::new(move |st| {
          let r = inner.run(st);
          evaluated(id, l, &r);
          r
        });
      }
      match l {
        0 => p.debug(name(id)),
        1 => p.info(name(id)),
        2 => p.warn(name(id)),
        _ => p.error(name(id)),
      }
    }
    G::Cache(g) => {
      let p = b(g);
      if !e.cached {
        return p;
      }
      if e.probe != Probe::Cache {
        return p.cache();
      }
      let inst = e.instances.get();
      e.instances.set(inst + 1);
      Parser::new(move |st: &ParseState<'static, E>| {
        counted(inst, st);
        p.run(st)
      })
      .cache()
    }
    G::Lazy(cb, g) => {
      let (cb, g, e) = (*cb, Rc::new((**g).clone()), e.clone());
      lazy(move || {
        call(cb);
        build(&e, &g)
      })
    }
    G::Rep(s, n, m, g) => rep(*s, *n, *m, b(g)).map(V::l),
    G::RepSep(s, n, m, g, sep) => rep_sep(*s, *n, *m, b(g), b(sep)).map(V::l),
    G::Or(op, x, y) => {
      if *op {
        b(x) | b(y)
      } else {
        b(x).or(b(y))
      }
    }
    G::And(op, x, y) => if *op { b(x) + b(y) } else { b(x).and_then(b(y)) }.map(|(v, w)| V::p(v, w)),
    G::SkipL(op, x, y) => {
      if *op {
        b(x) * b(y)
      } else {
        b(x).skip_left(b(y))
      }
    }
    G::SkipR(op, x, y) => {
      if *op {
        b(x) - b(y)
      } else {
        b(x).skip_right(b(y))
      }
    }
    G::Surround(x, y, z) => surround(b(x), b(y), b(z)),
    G::Chain(k, cb, p, op) => {
      let cb = *cb;
      let op = b(op).map(move |v| fold(cb, v));
      let p = b(p);
      match k % 6 {
        0 => p.chain_left1(op),
        1 => p.chain_left0(op, V::n(7)),
        2 => p.rest_left1(op, V::n(7)),
        3 if cb % 2 == 0 => p.scan_right1(op),
        3 => p.chain_right1(op),
        4 => p.chain_right0(op, V::n(7)),
        _ => p.rest_right1(op, V::n(7)),
      }
    }
    G::Rule(i) => {
      let (i, e) = (*i as usize, e.clone());
      lazy(move || {
        // Not the rule itself: a `lazy` that keeps what it built would then own
        // the parser it belongs to, a cycle the grammar's author would have made.
        let e = e.clone();
        Parser::new(move |st: &ParseState<'static, E>| {
          let p = e.rules.borrow()[i].clone();
          p.run(st)
        })
      })
    }
  }
}
/// A cached parser's inner parser is being evaluated.
fn counted(inst: u32, st: &ParseState<'static, E>) {
  if !live().on {
    return;
  }
  if let Some(f) = frames().last_mut() {
    let at = (inst, st.input().as_ptr() as usize, st.current_offset());
    if !f.evals.insert(at) {
      let op = f.op;
      live().out.violate(
        "evaluated-twice",
        format!("parse {}: a cached parser evaluated its inner parser twice at offset {}", op, at.2),
      );
    }
  }
}
/// A logged parser has been evaluated: its record is due now.
fn evaluated(id: u8, l: u8, r: &ParseResult<'static, E, V>) {
  if !live().on {
    return;
  }
  let lv = [log::Level::Debug, log::Level::Info, log::Level::Warn, log::Level::Error][l as usize];
  let enabled = lv <= log::max_level();
  let text = if enabled { format!("{:?}", r) } else { String::new() };
  if let Some(f) = frames().last_mut() {
    missing(f);
    if enabled {
      f.pending = Some((id, lv, text));
    }
  }
  let _ = level;
}
pub fn missing(f: &mut super::live::Frame) {
  if let Some((id, lv, _)) = f.pending.take() {
    live().out.violate("record-missing", format!("parse {}: no {} record of {}", f.op, lv, name(id)));
  }
}
