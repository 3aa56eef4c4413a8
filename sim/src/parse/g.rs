//! Grammars as data: generation, validity, sampling of sentences, and the reference interpreter.
use super::val::{Fold, K, V};
use crate::rng::{hash_str, mix, Rng};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Cls {
  Any,
  Is(char),
  In(char, char),
  Until(char, char),
  Of(u8),
  NoneOf(u8),
  /// A set given as a slice: negated, which.
  Slice(bool, u8),
  /// A range as a set: negated, spelling, bounds.
  Range(bool, u8, char, char),
  Space,
  MultiSpace,
  Alpha,
  AlphaDigit,
  Digit,
  Hex,
  Oct,
  Digit19,
}
/// The sets `elm_of` and `none_of` are asked about.
pub const SETS: &[&str] = &["abc", "12,", " ;\n", "\u{e9}\u{65e5}", "a", "\u{e9}\u{e5}a"];
const BYTE_SETS: &[u8] = &[0, 1, 2, 4, 5];
pub fn cls_has(c: &Cls, x: char) -> bool {
  match c {
    Cls::Any => true,
    Cls::Is(a) => *a == x,
    Cls::In(a, b) => *a <= x && x <= *b,
    Cls::Until(a, b) => *a <= x && x < *b,
    Cls::Of(i) => SETS[*i as usize % SETS.len()].chars().any(|y| y == x),
    Cls::NoneOf(i) => !SETS[*i as usize % SETS.len()].chars().any(|y| y == x),
    Cls::Slice(neg, i) => SETS[*i as usize % SETS.len()].chars().any(|y| y == x) != *neg,
    Cls::Range(neg, k, a, b) => {
      let within = match k % 6 {
        0 => *a <= x && x < *b,
        1 => *a <= x && x <= *b,
        2 => *a <= x,
        3 => x < *b,
        4 => x <= *b,
        _ => true,
      };
      within != *neg
    }
    Cls::Space => x == ' ' || x == '\t',
    Cls::MultiSpace => x == ' ' || x == '\t' || x == '\n' || x == '\r',
    Cls::Alpha => x.is_ascii_alphabetic(),
    Cls::AlphaDigit => x.is_ascii_alphanumeric(),
    Cls::Digit => x.is_ascii_digit(),
    Cls::Hex => x.is_ascii_hexdigit(),
    // the crate counts '8' as one; no text contains it
    Cls::Oct => ('0'..='7').contains(&x),
    Cls::Digit19 => x.is_ascii_digit() && x != '0',
  }
}
pub const ALPHABET: &[char] = &[
  'a', 'a', 'b', 'b', 'c', 'A', 'B', 'g', '0', '1', '2', '9', ',', ',', ';', ' ', '\n', '\t', '(', ')', '+', '\u{e9}',
  '\u{65e5}', '\u{1F600}',
];
pub const BYTES: &[char] = &[
  'a', 'a', 'b', 'b', 'c', 'A', 'B', 'g', '0', '1', '2', '9', ',', ',', ';', ' ', '\n', '\t', '(', ')', '+', '\u{e9}',
  '\u{e5}', '\u{0}', '\u{ff}',
];
/// Whether a class can be asked about bytes.
pub fn fits_bytes(c: &Cls) -> bool {
  let byte = |c: &char| (*c as u32) < 256;
  match c {
    Cls::Is(a) => byte(a),
    Cls::In(a, b) | Cls::Until(a, b) | Cls::Range(_, _, a, b) => byte(a) && byte(b),
    Cls::Of(i) | Cls::NoneOf(i) | Cls::Slice(_, i) => BYTE_SETS.contains(&(*i % SETS.len() as u8)),
    _ => true,
  }
}
pub const REGEX: &[(&str, bool)] = &[("[ab]+", false), ("a*b?", true), ("(?:\u{e9}|\u{65e5})+", false), ("[0-9]{1,3}", false), ("ab|b", false), ("^[0-9]|a", false)];
fn regex_len(i: u8, s: &[char]) -> Option<usize> {
  let run = |f: &dyn Fn(char) -> bool| s.iter().take_while(|c| f(**c)).count();
  match i as usize % REGEX.len() {
    0 => Some(run(&|c| c == 'a' || c == 'b')).filter(|n| *n > 0),
    1 => {
      let n = run(&|c| c == 'a');
      Some(n + (s.get(n) == Some(&'b')) as usize)
    }
    2 => Some(run(&|c| c == '\u{e9}' || c == '\u{65e5}')).filter(|n| *n > 0),
    3 => Some(run(&|c| c.is_ascii_digit()).min(3)).filter(|n| *n > 0),
    4 if s.starts_with(&['a', 'b']) => Some(2),
    4 => s.first().filter(|c| **c == 'b').map(|_| 1),
    _ => s.first().filter(|c| c.is_ascii_digit() || **c == 'a').map(|_| 1),
  }
}

/// `u16` numbers name user callbacks, `bool`s and `u8` styles choose between spellings of the same combinator.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum G {
  Unit(u8),
  End,
  Ok(u8),
  OkLazy(u16, bool),
  Fail(bool, u8),
  FailLazy(u16, bool, u8),
  El(Cls, bool),
  Pred(u16, Cls, bool),
  Seq(String),
  Tag(String),
  TagNc(String),
  Re(u8),
  Take(u8),
  Skip(u8),
  While(u8, u16, Cls, u8, u8),
  Till(bool, u16, Cls),
  Map(u16, Box<G>),
  Conv(u16, Box<G>),
  Filter(u16, bool, Box<G>),
  Flat(u16, Box<G>, Vec<G>),
  Exists(Box<G>),
  Not(bool, Box<G>),
  Peek(Box<G>),
  Opt(Box<G>),
  Attempt(Box<G>),
  Collect(Box<G>),
  Discard(Box<G>),
  LastOff(Box<G>),
  NextOff(Box<G>),
  Name(u8, Box<G>),
  Log(u8, u8, Box<G>),
  Cache(Box<G>),
  Lazy(u16, Box<G>),
  /// style, minimum, maximum (255: none)
  Rep(u8, u8, u8, Box<G>),
  RepSep(u8, u8, u8, Box<G>, Box<G>),
  Or(bool, Box<G>, Box<G>),
  And(bool, Box<G>, Box<G>),
  SkipL(bool, Box<G>, Box<G>),
  SkipR(bool, Box<G>, Box<G>),
  Surround(Box<G>, Box<G>, Box<G>),
  /// kind: 0 left1, 1 left0, 2 rest_left1, 3 right1, 4 right0, 5 rest_right1
  Chain(u8, u16, Box<G>, Box<G>),
  Rule(u8),
}

/// Bounds of a repetition as its spelling understands them: minimum and maximum number of items.
pub fn bounds(style: u8, n: u8, m: u8) -> (usize, Option<usize>) {
  let (a, b) = (n as usize, m as usize);
  match style % 10 {
    0 | 9 => (0, None),
    1 => (1, None),
    2 | 8 => (a, Some(a)),
    3 | 4 => (a, Some(b.max(a))),
    5 => (a, None),
    6 => (0, Some(b)),
    _ => (a, Some(b.max(a))),
  }
}

pub fn nullable(g: &G) -> bool {
  match g {
    G::Unit(_) | G::End | G::Ok(_) | G::OkLazy(..) => true,
    G::Fail(..) | G::FailLazy(..) => false,
    G::El(..) | G::Pred(..) | G::While(..) => false,
    G::Seq(s) | G::Tag(s) | G::TagNc(s) => s.is_empty(),
    G::Re(i) => REGEX[*i as usize % REGEX.len()].1,
    G::Take(n) | G::Skip(n) => *n == 0,
    G::Till(zero, ..) => *zero,
    G::Map(_, g) | G::Conv(_, g) | G::Filter(_, _, g) | G::Name(_, g) | G::Log(_, _, g) | G::Lazy(_, g) => nullable(g),
    G::Attempt(g) | G::Collect(g) | G::Discard(g) | G::LastOff(g) | G::NextOff(g) | G::Cache(g) => nullable(g),
    G::Flat(_, g, c) => nullable(g) && c.iter().any(nullable),
    G::Exists(_) | G::Not(..) | G::Peek(_) | G::Opt(_) => true,
    G::Rep(s, n, m, g) | G::RepSep(s, n, m, g, _) => {
      let (lo, hi) = bounds(*s, *n, *m);
      lo == 0 || hi == Some(0) || nullable(g)
    }
    G::Or(_, a, b) => nullable(a) || nullable(b),
    G::And(_, a, b) | G::SkipL(_, a, b) | G::SkipR(_, a, b) => nullable(a) && nullable(b),
    G::Surround(a, b, c) => nullable(a) && nullable(b) && nullable(c),
    G::Chain(k, _, p, _) => match k % 6 {
      0 | 3 => nullable(p),
      _ => true,
    },
    G::Rule(_) => false,
  }
}
/// No rule below `lo` is reachable without consuming anything, repeated parsers always consume, references exist.
fn left_ok(g: &G, lo: usize, rules: usize) -> bool {
  let ok = |g: &G, lo: usize| left_ok(g, lo, rules);
  let after = |a: &G| if nullable(a) { lo } else { 0 };
  match g {
    G::Rule(i) => (*i as usize) < rules && *i as usize >= lo,
    G::Map(_, g) | G::Conv(_, g) | G::Filter(_, _, g) | G::Name(_, g) | G::Log(_, _, g) | G::Lazy(_, g) => ok(g, lo),
    G::Attempt(g) | G::Collect(g) | G::Discard(g) | G::LastOff(g) | G::NextOff(g) | G::Cache(g) => ok(g, lo),
    G::Exists(g) | G::Not(_, g) | G::Peek(g) | G::Opt(g) => ok(g, lo),
    G::Flat(_, g, c) => !c.is_empty() && ok(g, lo) && c.iter().all(|c| ok(c, after(g))),
    G::Rep(s, n, m, g) => {
      let b = bounds(*s, *n, *m).1;
      (!nullable(g) || b.is_some()) && ok(g, lo) && b.map_or(true, |h| h < 50)
    }
    G::RepSep(s, n, m, g, sep) => {
      let b = bounds(*s, *n, *m).1;
      (!nullable(g) || b.is_some()) && ok(g, lo) && ok(sep, after(g)) && b.map_or(true, |h| h < 50)
    }
    G::Or(_, a, b) => ok(a, lo) && ok(b, lo),
    G::And(_, a, b) | G::SkipL(_, a, b) | G::SkipR(_, a, b) => ok(a, lo) && ok(b, after(a)),
    G::Surround(a, b, c) => {
      ok(a, lo) && ok(b, after(a)) && ok(c, if nullable(a) && nullable(b) { lo } else { 0 })
    }
    G::Chain(k, _, p, op) => !nullable(p) && ok(p, lo) && ok(op, if matches!(k % 6, 2 | 5) { lo } else { 0 }),
    G::While(_, _, _, n, m) => n <= m,
    _ => true,
  }
}
pub fn valid(rules: &[G], tops: &[G]) -> bool {
  rules.iter().enumerate().all(|(i, g)| !nullable(g) && left_ok(g, i + 1, rules.len()))
    && tops.iter().all(|g| left_ok(g, 0, rules.len()))
}
pub fn any(g: &G, f: &mut dyn FnMut(&G)) {
  f(g);
  match g {
    G::Map(_, g) | G::Conv(_, g) | G::Filter(_, _, g) | G::Name(_, g) | G::Log(_, _, g) | G::Lazy(_, g) => any(g, f),
    G::Attempt(g) | G::Collect(g) | G::Discard(g) | G::LastOff(g) | G::NextOff(g) | G::Cache(g) => any(g, f),
    G::Exists(g) | G::Not(_, g) | G::Peek(g) | G::Opt(g) | G::Rep(_, _, _, g) => any(g, f),
    G::Flat(_, g, c) => {
      any(g, f);
      c.iter().for_each(|c| any(c, f));
    }
    G::RepSep(_, _, _, a, b) | G::Or(_, a, b) | G::And(_, a, b) | G::SkipL(_, a, b) | G::SkipR(_, a, b) => {
      any(a, f);
      any(b, f);
    }
    G::Chain(_, _, a, b) => {
      any(a, f);
      any(b, f);
    }
    G::Surround(a, b, c) => {
      any(a, f);
      any(b, f);
      any(c, f);
    }
    _ => {}
  }
}

// ------------------------------------------------------------------ user code as functions of (callback, argument)
#[derive(Clone, Copy, Default, Serialize, Deserialize, PartialEq, Debug)]
pub struct Policy {
  pub seed: u64,
  /// Percentage of (callback, argument) pairs at which conversions and predicates say no.
  pub no: u8,
}
impl Policy {
  pub fn no(&self, cb: u16, h: u64) -> bool {
    mix(self.seed ^ (cb as u64) << 48 ^ h) % 100 < self.no as u64
  }
  pub fn pred(&self, cb: u16, c: &Cls, x: char) -> bool {
    cls_has(c, x) && !self.no(cb, x as u64)
  }
}

// ------------------------------------------------------------------ reference interpreter
pub enum No {
  Fail(bool),
  Fuel,
}
type R<T> = Result<T, No>;
pub struct Model<'a> {
  pub rules: &'a [G],
  pub inp: &'a [char],
  pub pol: Policy,
  pub fuel: u32,
  pub rejected: u64,
}
const UNC: No = No::Fail(false);
impl<'a> Model<'a> {
  /// The value and number of elements consumed by `g` at `o`, or failure with its commit status.
  pub fn ev(&mut self, g: &G, o: usize) -> R<(V, usize)> {
    if self.fuel == 0 {
      return Err(No::Fuel);
    }
    self.fuel -= 1;
    let rest = &self.inp[o..];
    let txt = |n: usize| V::s(rest[..n].iter().collect());
    match g {
      G::Unit(_) => Ok((V::u(), 0)),
      G::End => {
        if rest.is_empty() {
          Ok((V::u(), 0))
        } else {
          Err(UNC)
        }
      }
      G::Ok(n) => Ok((V::n(*n as usize), 0)),
      G::OkLazy(cb, _) => Ok((V::m(*cb, V::u()), 0)),
      G::Fail(c, _) | G::FailLazy(_, c, _) => Err(No::Fail(*c)),
      G::El(c, _) => match rest.first() {
        Some(x) if cls_has(c, *x) => Ok((V::c(*x), 1)),
        _ => Err(UNC),
      },
      G::Pred(cb, c, _) => match rest.first() {
        Some(x) if self.pol.pred(*cb, c, *x) => Ok((V::c(*x), 1)),
        _ => Err(UNC),
      },
      G::Seq(s) | G::Tag(s) | G::TagNc(s) => {
        let nc = matches!(g, G::TagNc(_));
        let mut i = 0;
        for c in s.chars() {
          match rest.get(i) {
            None => return Err(UNC),
            Some(x) if *x == c || (nc && x.eq_ignore_ascii_case(&c)) => i += 1,
            Some(_) => return Err(No::Fail(i != 0)),
          }
        }
        Ok((V::s(s.clone()), i))
      }
      G::Re(i) => match regex_len(*i, rest) {
        Some(n) => Ok((txt(n), n)),
        None => Err(UNC),
      },
      G::Take(n) | G::Skip(n) => {
        let n = *n as usize;
        if rest.len() < n {
          Err(UNC)
        } else if matches!(g, G::Take(_)) {
          Ok((txt(n), n))
        } else {
          Ok((V::u(), n))
        }
      }
      G::While(k, cb, c, lo, hi) => {
        let n = rest.iter().take_while(|x| self.pol.pred(*cb, c, **x)).count();
        if n == 0 || (k % 3 == 2 && !(*lo as usize <= n && n <= *hi as usize)) {
          Err(UNC)
        } else {
          Ok((txt(n), n))
        }
      }
      G::Till(zero, cb, c) => match rest.iter().position(|x| self.pol.pred(*cb, c, *x)) {
        Some(i) => Ok((txt(i + 1), i + 1)),
        None if *zero => Ok((txt(rest.len()), rest.len())),
        None => Err(UNC),
      },
      G::Map(cb, g) => self.ev(g, o).map(|(v, n)| (V::m(*cb, v), n)),
      G::Conv(cb, g) => {
        let (v, n) = self.ev(g, o)?;
        if self.pol.no(*cb, v.h) {
          self.rejected += 1;
          Err(UNC)
        } else {
          Ok((V::m(*cb, v), n))
        }
      }
      G::Filter(cb, not, g) => {
        let (v, n) = self.ev(g, o)?;
        if self.pol.no(*cb, v.h) != *not {
          self.rejected += 1;
          Err(UNC)
        } else {
          Ok((v, n))
        }
      }
      G::Flat(_, g, conts) => {
        let (v, n) = self.ev(g, o)?;
        let k = &conts[(v.h % conts.len() as u64) as usize];
        match self.ev(k, o + n) {
          Ok((w, m)) => Ok((V::p(v, w), n + m)),
          Err(No::Fail(c)) => Err(No::Fail(c || n != 0)),
          e => e,
        }
      }
      G::Exists(g) => match self.ev(g, o) {
        Ok(_) => Ok((V::b(true), 0)),
        Err(No::Fail(_)) => Ok((V::b(false), 0)),
        e => e,
      },
      G::Not(_, g) => match self.ev(g, o) {
        Ok(_) => Err(UNC),
        Err(No::Fail(_)) => Ok((V::u(), 0)),
        e => e,
      },
      G::Peek(g) => self.ev(g, o).map(|(v, _)| (v, 0)),
      G::Opt(g) => match self.ev(g, o) {
        Ok((v, n)) => Ok((V::o(Some(v)), n)),
        Err(No::Fail(_)) => Ok((V::o(None), 0)),
        e => e,
      },
      G::Attempt(g) => match self.ev(g, o) {
        Err(No::Fail(_)) => Err(UNC),
        x => x,
      },
      G::Collect(g) => self.ev(g, o).map(|(_, n)| (V::s(rest[..n].iter().collect()), n)),
      G::Discard(g) => self.ev(g, o).map(|(_, n)| (V::u(), n)),
      G::LastOff(g) => self.ev(g, o).map(|(_, n)| (V::n((o + n).saturating_sub(1)), n)),
      G::NextOff(g) => self.ev(g, o).map(|(_, n)| (V::n(o + n), n)),
      G::Name(_, g) | G::Log(_, _, g) | G::Cache(g) | G::Lazy(_, g) => self.ev(g, o),
      G::Rep(s, n, m, g) => self.rep(bounds(*s, *n, *m), g, None, o),
      G::RepSep(s, n, m, g, sep) => self.rep(bounds(*s, *n, *m), g, Some(sep), o),
      G::Or(_, a, b) => match self.ev(a, o) {
        Err(No::Fail(false)) => self.ev(b, o),
        x => x,
      },
      G::And(_, a, b) => {
        let (v, n) = self.ev(a, o)?;
        let (w, m) = self.ev(b, o + n)?;
        Ok((V::p(v, w), n + m))
      }
      G::SkipL(_, a, b) => {
        let (_, n) = self.ev(a, o)?;
        let (w, m) = self.ev(b, o + n)?;
        Ok((w, n + m))
      }
      G::SkipR(_, a, b) => {
        let (v, n) = self.ev(a, o)?;
        let (_, m) = self.ev(b, o + n)?;
        Ok((v, n + m))
      }
      G::Surround(a, b, c) => {
        let (_, n) = self.ev(a, o)?;
        let (v, m) = self.ev(b, o + n)?;
        let (_, k) = self.ev(c, o + n + m)?;
        Ok((v, n + m + k))
      }
      G::Chain(k, cb, p, op) => match k % 6 {
        2 => self.rest_left(*cb, p, op, V::n(7), o),
        5 => self.rest_right(*cb, p, op, V::n(7), o),
        k => {
          let r = self.chain1(k >= 3, *cb, p, op, o);
          match r {
            Err(No::Fail(false)) if k == 1 || k == 4 => Ok((V::n(7), 0)),
            r => r,
          }
        }
      },
      G::Rule(i) => {
        let r = &self.rules[*i as usize];
        self.ev(r, o)
      }
    }
  }
  fn chain1(&mut self, right: bool, cb: u16, p: &G, op: &G, o: usize) -> R<(V, usize)> {
    let (x, n) = self.ev(p, o)?;
    let r = if right { self.rest_right(cb, p, op, x, o + n) } else { self.rest_left(cb, p, op, x, o + n) };
    match r {
      Ok((v, m)) => Ok((v, n + m)),
      Err(No::Fail(c)) => Err(No::Fail(c || n != 0)),
      e => e,
    }
  }
  fn rest_left(&mut self, cb: u16, p: &G, op: &G, x: V, o: usize) -> R<(V, usize)> {
    let mut acc = x;
    let mut at = o;
    loop {
      if self.fuel == 0 {
        return Err(No::Fuel);
      }
      self.fuel -= 1;
      let before = at;
      let fail = match self.ev(op, at) {
        Ok((f, n)) => {
          at += n;
          match self.ev(p, at) {
            Ok((y, m)) => {
              at += m;
              acc = V::f(Fold { cb, op: f.h }, acc, y);
              continue;
            }
            Err(No::Fail(c)) => c || n != 0,
            Err(e) => return Err(e),
          }
        }
        Err(No::Fail(c)) => c,
        Err(e) => return Err(e),
      };
      if fail {
        return Err(No::Fail(true));
      }
      return Ok((acc, before - o));
    }
  }
  fn rest_right(&mut self, cb: u16, p: &G, op: &G, x: V, o: usize) -> R<(V, usize)> {
    let fail = match self.ev(op, o) {
      Ok((f, n)) => match self.chain1(true, cb, p, op, o + n) {
        Ok((y, m)) => return Ok((V::f(Fold { cb, op: f.h }, x, y), n + m)),
        Err(No::Fail(c)) => c || n != 0,
        Err(e) => return Err(e),
      },
      Err(No::Fail(c)) => c,
      Err(e) => return Err(e),
    };
    if fail {
      Err(No::Fail(true))
    } else {
      Ok((x, 0))
    }
  }
  fn rep(&mut self, (lo, hi): (usize, Option<usize>), g: &G, sep: Option<&G>, o: usize) -> R<(V, usize)> {
    let mut items = vec![];
    let mut n = 0;
    let full = |k: usize| hi.map_or(false, |h| k >= h);
    while !full(items.len()) {
      if let (Some(s), false) = (sep, items.is_empty()) {
        match self.ev(s, o + n) {
          Ok((_, m)) => n += m,
          Err(No::Fail(_)) => break,
          e => return e,
        }
      }
      match self.ev(g, o + n) {
        Ok((v, m)) => {
          n += m;
          items.push(v);
        }
        Err(No::Fail(_)) => break,
        e => return e,
      }
    }
    if items.len() < lo {
      Err(UNC)
    } else {
      Ok((V::l(items), n))
    }
  }
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Copy)]
pub struct GenCfg {
  /// Elements are bytes.
  pub bytes: bool,
  pub rules: u8,
  pub cache: u32,
  pub log: u32,
  pub regex: u32,
  /// Weight of parsers with user code.
  pub user: u32,
}
pub struct Gen<'a> {
  pub r: &'a mut Rng,
  pub c: GenCfg,
  pub cb: u16,
  pub logs: u8,
}
impl<'a> Gen<'a> {
  fn cb(&mut self) -> u16 {
    if self.cb > 0 && self.r.chance(15) {
      return self.r.below(self.cb as u64) as u16;
    }
    self.cb += 1;
    self.cb - 1
  }
  fn alphabet(&self) -> &'static [char] {
    if self.c.bytes {
      BYTES
    } else {
      ALPHABET
    }
  }
  pub fn cls(&mut self) -> Cls {
    loop {
      let c = self.any_cls();
      if !self.c.bytes || fits_bytes(&c) {
        return c;
      }
    }
  }
  fn any_cls(&mut self) -> Cls {
    let alphabet = self.alphabet();
    let r = &mut self.r;
    match r.below(20) {
      0 => Cls::Any,
      1..=5 => Cls::Is(*r.pick(alphabet)),
      6 => Cls::In(*r.pick(&['a', 'a', '0']), *r.pick(&['a', 'b', 'c', 'z', '\u{e9}'])),
      7 => Cls::Until(*r.pick(&['0', '1', 'a']), *r.pick(&['2', 'b', 'c', '\u{65e5}', '\u{e5}'])),
      8 => Cls::Of(r.below(6) as u8),
      9 => Cls::NoneOf(r.below(6) as u8),
      10 => r.pick(&[Cls::Space, Cls::MultiSpace]).clone(),
      11 => Cls::Alpha,
      12 => Cls::AlphaDigit,
      13 => Cls::Digit,
      14 => Cls::Hex,
      15 => Cls::Oct,
      16 => Cls::Slice(r.chance(40), r.below(6) as u8),
      17 | 18 => {
        let a = *r.pick(&['0', '1', 'a', 'b']);
        let b = *r.pick(&['1', '2', 'a', 'b', 'c', 'z', '\u{e9}']);
        Cls::Range(r.chance(30), r.below(6) as u8, a, b)
      }
      _ => Cls::Digit19,
    }
  }
  fn word(&mut self) -> String {
    let n = 1 + self.r.usize(3);
    let a = self.alphabet();
    (0..n).map(|_| *self.r.pick(a)).collect()
  }
  fn leaf(&mut self, nn: bool) -> G {
    if !nn && self.r.chance(20) {
      return match self.r.below(8) {
        0 => G::Unit(self.r.below(3) as u8),
        1 => G::End,
        2 => G::Ok(self.r.below(9) as u8),
        3 => G::OkLazy(self.cb(), self.r.chance(50)),
        4 => G::Fail(self.r.chance(40), self.r.below(5) as u8),
        5 => G::FailLazy(self.cb(), self.r.chance(40), self.r.below(5) as u8),
        6 => G::Till(true, self.cb(), self.cls()),
        _ => G::Seq(String::new()),
      };
    }
    if !self.c.bytes && self.r.chance(self.c.regex) {
      let i = self.r.below(REGEX.len() as u64) as u8;
      if !(nn && REGEX[i as usize].1) {
        return G::Re(i);
      }
    }
    match self.r.below(16) {
      0..=4 => G::El(self.cls(), self.r.chance(40)),
      5 | 6 => G::Pred(self.cb(), self.cls(), self.r.chance(40)),
      7 | 8 if !self.c.bytes => G::Tag(self.word()),
      10 if !self.c.bytes => G::TagNc(self.word()),
      7..=10 => G::Seq(self.word()),
      11 => G::Take(1 + self.r.below(3) as u8),
      12 => G::Skip(1 + self.r.below(3) as u8),
      13 => {
        let n = self.r.below(3) as u8;
        let m = n + 1 + self.r.below(4) as u8;
        G::While(self.r.below(3) as u8, self.cb(), self.cls(), n, m)
      }
      14 => G::Till(false, self.cb(), self.cls()),
      _ => G::El(self.cls(), false),
    }
  }
  /// `nn`: never succeeds without consuming. `lo`: rules below are not allowed before something is consumed.
  pub fn gen(&mut self, depth: u32, nn: bool, lo: u8) -> G {
    if depth == 0 || self.r.chance(8) {
      if self.c.rules > lo && self.r.chance(30) {
        return G::Rule(lo + self.r.below((self.c.rules - lo) as u64) as u8);
      }
      return self.leaf(nn);
    }
    let d = depth - 1;
    macro_rules! b {
      ($nn:expr, $lo:expr) => {
        Box::new(self.gen(d, $nn, $lo))
      };
    }
    if self.r.chance(self.c.cache) {
      return G::Cache(b!(nn, lo));
    }
    if self.r.chance(self.c.log) {
      self.logs += 1;
      return G::Log(self.r.below(4) as u8, self.logs - 1, b!(nn, lo));
    }
    if self.r.chance(self.c.user) {
      return match self.r.below(8) {
        0 | 1 => G::Map(self.cb(), b!(nn, lo)),
        2 | 3 => G::Conv(self.cb(), b!(nn, lo)),
        4 => G::Filter(self.cb(), self.r.chance(30), b!(nn, lo)),
        5 => G::Lazy(self.cb(), b!(nn, lo)),
        _ => {
          let g = b!(nn, lo);
          let l2 = if nullable(&g) { lo } else { 0 };
          let n = 1 + self.r.usize(3);
          let c = (0..n).map(|_| self.gen(d, false, l2)).collect();
          G::Flat(self.cb(), g, c)
        }
      };
    }
    if !nn && self.r.chance(22) {
      return match self.r.below(9) {
        0 => G::Exists(b!(false, lo)),
        1 => G::Not(self.r.chance(50), b!(false, lo)),
        2 => G::Peek(b!(false, lo)),
        3 | 4 => G::Opt(b!(false, lo)),
        5 => {
          let k = *self.r.pick(&[1u8, 4]);
          G::Chain(k, self.cb(), b!(true, lo), b!(false, 0))
        }
        6 => {
          let k = *self.r.pick(&[2u8, 5]);
          G::Chain(k, self.cb(), b!(true, lo), b!(false, lo))
        }
        7 => G::Rep(*self.r.pick(&[0u8, 6]), self.r.below(3) as u8, self.r.below(4) as u8, b!(true, lo)),
        _ => G::RepSep(*self.r.pick(&[0u8, 6]), self.r.below(3) as u8, self.r.below(4) as u8, b!(true, lo), b!(false, 0)),
      };
    }
    match self.r.below(24) {
      0..=4 => {
        if nn && self.r.chance(40) {
          // the second half consumes
          let a = b!(false, lo);
          let l2 = if nullable(&a) { lo } else { 0 };
          let nn2 = nullable(&a);
          return G::And(self.r.chance(50), a, b!(nn2, l2));
        }
        let a = b!(nn, lo);
        let l2 = if nullable(&a) { lo } else { 0 };
        G::And(self.r.chance(50), a, b!(false, l2))
      }
      5..=8 => G::Or(self.r.chance(50), b!(nn, lo), b!(nn, lo)),
      9 | 10 => G::Attempt(b!(nn, lo)),
      11 => {
        let a = b!(nn, lo);
        let l2 = if nullable(&a) { lo } else { 0 };
        G::SkipL(self.r.chance(50), a, b!(false, l2))
      }
      12 => {
        let a = b!(nn, lo);
        let l2 = if nullable(&a) { lo } else { 0 };
        G::SkipR(self.r.chance(50), a, b!(false, l2))
      }
      13 => {
        let a = b!(nn, lo);
        let l2 = if nullable(&a) { lo } else { 0 };
        G::Surround(a, b!(false, l2), b!(false, l2))
      }
      14..=16 => {
        let s = self.r.below(10) as u8;
        let (n, m) = (1 + self.r.below(3) as u8, 1 + self.r.below(5) as u8);
        let (s, n) = if nn { (*self.r.pick(&[1u8, 2, 3, 4, 5, 7, 8]), n) } else { (s, if self.r.chance(30) { 0 } else { n }) };
        // items that may consume nothing end only if their number is bounded
        let nn2 = nn || bounds(s, n, m).1.is_none() || self.r.chance(80);
        if self.r.chance(50) {
          G::Rep(s, n, m, b!(nn2, lo))
        } else {
          let g = b!(nn2, lo);
          let l2 = if nullable(&g) { lo } else { 0 };
          G::RepSep(s, n, m, g, b!(false, l2))
        }
      }
      17 | 18 => {
        let k = *self.r.pick(&[0u8, 3]);
        G::Chain(k, self.cb(), b!(true, lo), b!(false, 0))
      }
      19 => G::Collect(b!(nn, lo)),
      20 => G::Discard(b!(nn, lo)),
      21 => G::LastOff(b!(nn, lo)),
      22 => G::NextOff(b!(nn, lo)),
      _ => G::Name(self.r.below(4) as u8, b!(nn, lo)),
    }
  }
}
fn sample_cls(r: &mut Rng, al: &[char], c: &Cls, out: &mut Vec<char>) {
  let v: Vec<char> = al.iter().copied().filter(|x| cls_has(c, *x)).collect();
  if v.is_empty() {
    if let Cls::Is(x) = c {
      out.push(*x);
    }
  } else {
    out.push(*r.pick(&v));
  }
}
/// Some text that `g` is likely to accept.
pub fn sample(r: &mut Rng, al: &[char], rules: &[G], g: &G, fuel: &mut u32, out: &mut Vec<char>) {
  if *fuel == 0 {
    return;
  }
  *fuel -= 1;
  match g {
    G::El(c, _) | G::Pred(_, c, _) => sample_cls(r, al, c, out),
    G::Seq(s) | G::Tag(s) | G::TagNc(s) => out.extend(s.chars()),
    G::Re(i) => match i % 4 {
      0 => out.extend(['a', 'b', 'a'].iter().take(1 + r.usize(3))),
      1 => out.extend(['a', 'a', 'b'].iter().skip(r.usize(3))),
      2 => out.extend(['\u{e9}', '\u{65e5}'].iter().take(1 + r.usize(2))),
      _ => out.extend(['1', '2', '9', '0'].iter().take(1 + r.usize(4))),
    },
    G::Take(n) | G::Skip(n) => (0..*n).for_each(|_| out.push(*r.pick(al))),
    G::While(_, _, c, n, m) => (0..(*n).max(1) as u64 + r.below((m - n) as u64 + 1)).for_each(|_| sample_cls(r, al, c, out)),
    G::Till(_, _, c) => {
      for _ in 0..r.usize(3) {
        out.push(*r.pick(al));
      }
      sample_cls(r, al, c, out);
    }
    G::Map(_, g) | G::Conv(_, g) | G::Filter(_, _, g) | G::Name(_, g) | G::Log(_, _, g) | G::Lazy(_, g) => sample(r, al, rules, g, fuel, out),
    G::Attempt(g) | G::Collect(g) | G::Discard(g) | G::LastOff(g) | G::NextOff(g) | G::Cache(g) => sample(r, al, rules, g, fuel, out),
    G::Opt(g) => {
      if r.chance(60) {
        sample(r, al, rules, g, fuel, out)
      }
    }
    G::Flat(_, g, c) => {
      sample(r, al, rules, g, fuel, out);
      let k = r.pick(c).clone();
      sample(r, al, rules, &k, fuel, out);
    }
    G::Rep(s, n, m, g) => {
      let (lo, hi) = bounds(*s, *n, *m);
      let k = (lo + r.usize(4)).min(hi.unwrap_or(9) + r.usize(2));
      (0..k).for_each(|_| sample(r, al, rules, g, fuel, out));
    }
    G::RepSep(s, n, m, g, sep) => {
      let (lo, hi) = bounds(*s, *n, *m);
      let k = (lo + r.usize(4)).min(hi.unwrap_or(9) + r.usize(2));
      for i in 0..k {
        if i > 0 {
          sample(r, al, rules, sep, fuel, out);
        }
        sample(r, al, rules, g, fuel, out);
      }
      if r.chance(25) {
        sample(r, al, rules, sep, fuel, out);
      }
    }
    G::Or(_, a, b) => {
      let g = if r.chance(50) { a } else { b };
      sample(r, al, rules, g, fuel, out)
    }
    G::And(_, a, b) | G::SkipL(_, a, b) | G::SkipR(_, a, b) => {
      sample(r, al, rules, a, fuel, out);
      sample(r, al, rules, b, fuel, out);
    }
    G::Surround(a, b, c) => {
      sample(r, al, rules, a, fuel, out);
      sample(r, al, rules, b, fuel, out);
      sample(r, al, rules, c, fuel, out);
    }
    G::Chain(k, _, p, op) => {
      if !matches!(k % 6, 2 | 5) {
        sample(r, al, rules, p, fuel, out);
      }
      for _ in 0..r.usize(4) {
        sample(r, al, rules, op, fuel, out);
        if r.chance(90) {
          sample(r, al, rules, p, fuel, out);
        }
      }
    }
    G::Rule(i) => {
      if let Some(g) = rules.get(*i as usize) {
        sample(r, al, rules, g, fuel, out)
      }
    }
    _ => {}
  }
}
pub fn gen_input(r: &mut Rng, rules: &[G], tops: &[G], bytes: bool) -> String {
  let al = if bytes { BYTES } else { ALPHABET };
  let mut out = vec![];
  if !tops.is_empty() && r.chance(88) {
    let t = r.pick(tops).clone();
    let mut fuel = 60 + r.below(60) as u32;
    sample(r, al, rules, &t, &mut fuel, &mut out);
  }
  for _ in 0..r.usize(3) {
    let n = out.len();
    match r.below(4) {
      0 if n > 0 => {
        out.remove(r.usize(n));
      }
      1 if n > 0 => {
        let i = r.usize(n);
        out[i] = *r.pick(al)
      }
      2 => out.insert(r.usize(n + 1), *r.pick(al)),
      _ => out.truncate(n.saturating_sub(r.usize(2))),
    }
  }
  if r.chance(40) {
    for _ in 0..r.usize(5) {
      out.push(*r.pick(al));
    }
  }
  out.truncate(120);
  out.into_iter().collect()
}
pub fn shape(rules: &[G], tops: &[G]) -> u64 {
  hash_str(&format!("{:?}{:?}", rules, tops))
}
#[allow(dead_code)]
fn _k(_: &K) {}
