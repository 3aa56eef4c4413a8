//! Documents: abstract syntax, rendering to HOCON text, and the independent evaluator used as oracle.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// A value as written in a document.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dv {
  Null,
  B(bool),
  /// Number, as spelled.
  N(String),
  /// Duration: whole number and unit, as spelled.
  D(u64, String),
  /// mantissa, digits behind the point, unit
  Df(i64, u8, String),
  /// String, repeated.
  S(String, u32),
  A(Vec<Dv>),
  O(Vec<(String, Dv)>),
  /// Reference: path, optional.
  R(String, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Doc {
  /// 0: properties; 1: in braces.
  pub form: u8,
  pub style: u64,
  pub fields: Vec<(String, Dv)>,
  /// Bytes of comments before the fields.
  #[serde(default, skip_serializing_if = "zero")]
  pub pad: u32,
}
fn zero(n: &u32) -> bool {
  *n == 0
}
/// Comments of about n bytes.
fn padding(n: usize, style: u64, s: &mut String) {
  let mut st = Rng::new(style ^ 0x70ad);
  let width = *st.pick(&[0usize, 1, 70, 100, 5000, usize::MAX]);
  let pat = *st.pick(&["x", "a = 0 ", "\u{e9}", "\u{65e5}\u{672c}", "x\u{1f600}", "} ] \" "]);
  let from = s.len();
  s.push('\n');
  while s.len() - from < n {
    s.push_str(*st.pick(&["#", "//"]));
    let end = s.len() + width.min(n);
    while s.len() < end && s.len() - from < n {
      s.push_str(pat);
    }
    s.push('\n');
  }
}

/// A value as loaded.
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Cv {
  Null,
  B(bool),
  /// Normalised.
  N(String),
  D(i128),
  S(String),
  A(Vec<Cv>),
  O(BTreeMap<String, Cv>),
  Other(String),
}
impl Cv {
  pub fn short(&self) -> String {
    match self {
      Cv::S(s) if s.len() > 60 => format!("S(len {} {:?}..)", s.len(), s.chars().take(16).collect::<String>()),
      Cv::A(v) => format!("[{}]", v.iter().map(|x| x.short()).collect::<Vec<_>>().join(", ")),
      Cv::O(m) => {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}: {}", k, v.short())).collect::<Vec<_>>().join(", "))
      }
      x => format!("{:?}", x),
    }
  }
}

// ------------------------------------------------------------------ words
pub fn plain_key(k: &str) -> bool {
  !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-' || b == b'_')
}
pub fn path_like(k: &str) -> bool {
  !k.is_empty() && k.split('.').all(plain_key)
}
const UNITS: &[(&str, u128)] = &[
  ("ns", 1),
  ("nano", 1),
  ("nanos", 1),
  ("nanosecond", 1),
  ("nanoseconds", 1),
  ("us", 1_000),
  ("micro", 1_000),
  ("micros", 1_000),
  ("microsecond", 1_000),
  ("microseconds", 1_000),
  ("ms", 1_000_000),
  ("milli", 1_000_000),
  ("millis", 1_000_000),
  ("millisecond", 1_000_000),
  ("milliseconds", 1_000_000),
  ("s", 1_000_000_000),
  ("second", 1_000_000_000),
  ("seconds", 1_000_000_000),
  ("m", 60_000_000_000),
  ("minute", 60_000_000_000),
  ("minutes", 60_000_000_000),
  ("h", 3_600_000_000_000),
  ("hour", 3_600_000_000_000),
  ("hours", 3_600_000_000_000),
  ("d", 86_400_000_000_000),
  ("day", 86_400_000_000_000),
  ("days", 86_400_000_000_000),
];
fn unit_ns(u: &str) -> Option<u128> {
  UNITS.iter().find(|x| x.0 == u).map(|x| x.1)
}
/// Nanoseconds of a duration with a fraction or a sign.
fn df_ns(m: i64, k: u8, u: &str) -> Option<i128> {
  let n = m as i128 * unit_ns(u)? as i128;
  let d = 10i128.checked_pow(k as u32).filter(|_| k <= 9)?;
  if n % d == 0 && (n / d).abs() < i64::MAX as i128 && m != 0 {
    Some(n / d)
  } else {
    None
  }
}
/// sign, digits, exponent: a normal form of a decimal number; None if it is not spelled as one or is too long.
pub fn norm_num(s: &str) -> Option<String> {
  let (neg, r) = match s.strip_prefix('-') {
    Some(r) => (true, r),
    None => (false, s),
  };
  let (m, e) = match r.find(|c| c == 'e' || c == 'E') {
    Some(i) => {
      let t = &r[i + 1..];
      let d = t.strip_prefix('+').or(t.strip_prefix('-')).unwrap_or(t);
      if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
      }
      (&r[..i], t.strip_prefix('+').unwrap_or(t).parse::<i32>().ok()?)
    }
    None => (r, 0),
  };
  let (i, f) = match m.split_once('.') {
    Some((i, f)) => {
      if f.is_empty() {
        return None;
      }
      (i, f)
    }
    None => (m, ""),
  };
  if i.is_empty() || (i.len() > 1 && i.starts_with('0')) || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
    return None;
  }
  let digits: String = format!("{}{}", i, f);
  if digits.len() > 20 || e.abs() > 8 {
    return None;
  }
  let mut exp = e - f.len() as i32;
  let mut d = digits.trim_start_matches('0').to_string();
  while d.ends_with('0') {
    d.pop();
    exp += 1;
  }
  if d.is_empty() {
    return Some("0".into());
  }
  Some(format!("{}{}e{}", if neg { "-" } else { "" }, d, exp))
}
/// The same normal form from the plain notation the value prints.
pub fn norm_printed(s: &str) -> String {
  let (neg, r) = match s.strip_prefix('-') {
    Some(r) => (true, r),
    None => (false, s),
  };
  let (i, f) = r.split_once('.').unwrap_or((r, ""));
  let mut exp = -(f.len() as i32);
  let mut d = format!("{}{}", i, f).trim_start_matches('0').to_string();
  while d.ends_with('0') {
    d.pop();
    exp += 1;
  }
  if d.is_empty() {
    return "0".into();
  }
  format!("{}{}e{}", if neg { "-" } else { "" }, d, exp)
}

// ------------------------------------------------------------------ rendering
fn quote(s: &str, st: &mut Rng, out: &mut String) {
  let q = if st.chance(15) { '\'' } else { '"' };
  out.push(q);
  for c in s.chars() {
    match c {
      '\u{8}' => out.push_str("\\b"),
      '\u{c}' => out.push_str("\\f"),
      '\t' if st.chance(50) => out.push_str("\\t"),
      '/' if st.chance(20) => out.push_str("\\/"),
      '"' => out.push_str("\\\""),
      '\\' => out.push_str("\\\\"),
      '\n' => out.push_str("\\n"),
      '\r' => out.push_str("\\r"),
      '[' | ']' | '\'' => out.push_str(&format!("\\u{:04X}", c as u32)),
      c if (c as u32) > 0x7f && st.chance(20) => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          out.push_str(&format!("\\u{:04x}", u));
        }
      }
      c if st.chance(2) => {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          out.push_str(&format!("\\u{:04X}", u));
        }
      }
      c => out.push(c),
    }
  }
  out.push(q);
}
/// A word that may stand unquoted before the end of a line.
fn bare(s: &str) -> bool {
  plain_key(s) && !["null", "true", "false"].iter().any(|w| s.starts_with(w)) && !s.starts_with('-')
}
fn key_text(k: &str, st: &mut Rng, out: &mut String) {
  if path_like(k) {
    out.push_str(k)
  } else {
    quote(k, st, out)
  }
}
fn value(v: &Dv, st: &mut Rng, depth: usize, out: &mut String) {
  match v {
    Dv::Null => out.push_str("null"),
    Dv::B(b) => out.push_str(if *b { "true" } else { "false" }),
    Dv::N(s) => out.push_str(s),
    Dv::D(n, u) => {
      out.push_str(&n.to_string());
      out.push_str(*st.pick(&["", " ", "", "  ", "\t"]));
      out.push_str(u);
    }
    Dv::Df(m, k, u) => {
      let t = format!("{:0>1$}", m.unsigned_abs(), *k as usize + 1);
      let (i, f) = t.split_at(t.len() - *k as usize);
      out.push_str(if *m < 0 { "-" } else { "" });
      out.push_str(i);
      if *k > 0 {
        out.push('.');
        out.push_str(f);
      }
      out.push_str(*st.pick(&["", " ", "", "  ", "\t"]));
      out.push_str(u);
    }
    Dv::S(s, r) => quote(&s.repeat(*r as usize), st, out),
    Dv::A(l) => {
      out.push('[');
      let ws = *st.pick(&["", " ", "\n", "\r\n  "]);
      for (i, x) in l.iter().enumerate() {
        if i > 0 {
          out.push(',');
        }
        out.push_str(ws);
        value(x, st, depth + 1, out);
      }
      out.push_str(ws);
      out.push(']');
    }
    Dv::O(f) => {
      out.push('{');
      let sep = *st.pick(&["\n", ",", ", ", ",\n", "\r\n"]);
      out.push_str(*st.pick(&["", " ", "\n", "\t"]));
      fields(f, st, depth + 1, sep, out);
      out.push_str(*st.pick(&["", " ", "\n"]));
      out.push('}');
    }
    Dv::R(p, o) => {
      out.push_str("${");
      if *o {
        out.push('?');
      }
      out.push_str(p);
      out.push('}');
    }
  }
}
fn fields(f: &[(String, Dv)], st: &mut Rng, depth: usize, sep: &str, out: &mut String) {
  for (i, (k, v)) in f.iter().enumerate() {
    if i > 0 {
      out.push_str(sep);
      if sep.ends_with('\n') {
        let ind = if st.chance(50) { " ".repeat(depth * 2) } else { String::new() };
        while st.chance(18) {
          match st.below(3) {
            0 => out.push_str(&format!("{}# a comment = {{ [\n", ind)),
            1 => out.push_str(&format!("{}//{}\n", ind, k)),
            _ => out.push_str("\n"),
          }
        }
        out.push_str(&ind);
      }
    }
    key_text(k, st, out);
    match v {
      Dv::O(_) | Dv::A(_) if st.chance(50) => out.push_str(*st.pick(&["", " "])),
      _ => out.push_str(*st.pick(&["=", " = ", ":", " : ", "= ", " =\t"])),
    }
    if let Dv::S(s, 1) = v {
      if bare(s) && i + 1 < f.len() && (sep == "\n" || sep == "\r\n") && st.chance(50) {
        out.push_str(s);
        continue;
      }
    }
    value(v, st, depth, out);
    if st.chance(4) {
      out.push_str(" # note: \"x\" }\n");
    }
  }
}
pub fn render(d: &Doc) -> Vec<u8> {
  let mut st = Rng::new(d.style);
  let mut s = String::new();
  s.push_str(*st.pick(&["", "", "\n", "  ", "# head\n"]));
  if d.pad > 0 {
    padding(d.pad as usize, d.style, &mut s);
  }
  if d.form == 1 {
    value(&Dv::O(d.fields.clone()), &mut st, 0, &mut s);
  } else {
    let sep = if st.chance(15) { "\r\n" } else { "\n" };
    fields(&d.fields, &mut st, 0, sep, &mut s);
  }
  s.push_str(*st.pick(&["", "\n", "\n\n", "  ", "\n# tail"]));
  s.into_bytes()
}

// ------------------------------------------------------------------ the evaluator
#[derive(Debug, Clone, Copy, PartialEq)]
/// The document is outside what the properties speak about.
pub struct Invalid;

/// What may be found at a path: several alternatives if the environment changed during the load; None: nothing.
pub type Alts = Vec<Option<Mv>>;
#[derive(Clone, Debug, PartialEq)]
pub enum Mv {
  Leaf(Cv),
  A(Vec<Alts>),
  /// The flag: the object follows another value, no earlier object shows through it.
  O(BTreeMap<String, Alts>, bool),
}
#[derive(Clone, Debug)]
enum Tn {
  Leaf { hist: Vec<Dv>, spelling: String },
  Obj(BTreeMap<String, Tn>),
}
/// The values an environment variable has during the load: (None = unset).
pub type EnvOf<'a> = &'a dyn Fn(&str) -> Vec<Option<String>>;

fn check_leaf(v: &Dv, depth: usize) -> Result<(), Invalid> {
  match v {
    Dv::N(s) => norm_num(s).map(|_| ()).ok_or(Invalid),
    Dv::D(n, u) => match unit_ns(u) {
      Some(ns) if (*n as u128) * ns < u64::MAX as u128 => Ok(()),
      _ => Err(Invalid),
    },
    Dv::Df(m, k, u) => df_ns(*m, *k, u).map(|_| ()).ok_or(Invalid),
    Dv::S(s, r) => {
      if s.is_empty() || *r == 0 || s.len() as u64 * *r as u64 > 400_000 || s.chars().any(|c| c.is_control() && !matches!(c, '\n' | '\t' | '\r' | '\u{8}' | '\u{c}')) {
        return Err(Invalid);
      }
      Ok(())
    }
    Dv::R(p, _) => {
      if path_like(p) {
        Ok(())
      } else {
        Err(Invalid)
      }
    }
    Dv::A(l) => {
      if depth > 40 {
        return Err(Invalid);
      }
      l.iter().try_for_each(|x| match x {
        Dv::O(f) => tree(f, false, depth + 1).map(|_| ()),
        x => check_leaf(x, depth + 1),
      })
    }
    _ => Ok(()),
  }
}
fn key_ok(k: &str) -> bool {
  path_like(k) || (!k.is_empty() && !k.contains('.') && !k.chars().any(|c| c.is_control()))
}
fn tree(fields: &[(String, Dv)], top_props: bool, depth: usize) -> Result<Tn, Invalid> {
  if depth > 40 {
    return Err(Invalid);
  }
  let mut m = BTreeMap::new();
  let mut seen: BTreeMap<&str, &Dv> = BTreeMap::new();
  for (k, v) in fields {
    if !key_ok(k) {
      return Err(Invalid);
    }
    if let Some(prev) = seen.insert(k, v) {
      let cont = |v: &Dv| matches!(v, Dv::A(_) | Dv::O(_));
      let both_obj = matches!((prev, v), (Dv::O(_), Dv::O(_)));
      if (cont(prev) || cont(v)) && !(both_obj && top_props) {
        return Err(Invalid);
      }
    }
    let keys: Vec<&str> = k.split('.').collect();
    insert(&mut m, &keys, k, v, depth)?;
  }
  Ok(Tn::Obj(m))
}
fn insert(m: &mut BTreeMap<String, Tn>, keys: &[&str], spelled: &str, v: &Dv, depth: usize) -> Result<(), Invalid> {
  let sub = if keys.len() > 1 {
    let mut inner = BTreeMap::new();
    insert(&mut inner, &keys[1..], spelled, v, depth + 1)?;
    Tn::Obj(inner)
  } else {
    match v {
      Dv::O(f) => mark(tree(f, false, depth + 1)?, spelled),
      v => {
        check_leaf(v, depth)?;
        Tn::Leaf { hist: vec![v.clone()], spelling: spelled.to_string() }
      }
    }
  };
  join(m, keys[0], sub)
}
/// Leaves below an object remember the whole spelling of the keys that lead to them.
fn mark(t: Tn, spelled: &str) -> Tn {
  match t {
    Tn::Leaf { hist, spelling } => Tn::Leaf { hist, spelling: format!("{}/{}", spelled, spelling) },
    Tn::Obj(m) => Tn::Obj(m.into_iter().map(|(k, v)| (k, mark(v, spelled))).collect()),
  }
}
fn join(m: &mut BTreeMap<String, Tn>, k: &str, sub: Tn) -> Result<(), Invalid> {
  match (m.get_mut(k), sub) {
    (None, s) => {
      m.insert(k.to_string(), s);
      Ok(())
    }
    (Some(Tn::Obj(a)), Tn::Obj(b)) => b.into_iter().try_for_each(|(k, v)| join(a, &k, v)),
    (Some(Tn::Leaf { hist, spelling }), Tn::Leaf { hist: h, spelling: sp }) => {
      let arr = |h: &[Dv]| h.iter().any(|v| matches!(v, Dv::A(_)));
      if *spelling != sp || (arr(hist) && arr(&h)) || (hist.len() + h.len() > 1 && (arr(hist) || arr(&h))) {
        return Err(Invalid);
      }
      hist.extend(h);
      Ok(())
    }
    _ => Err(Invalid),
  }
}
struct Ev<'a> {
  root: &'a Tn,
  env: EnvOf<'a>,
  may_err: bool,
  steps: u32,
}
impl<'a> Ev<'a> {
  fn find(&self, path: &str) -> Result<Option<(&'a Tn, String)>, Invalid> {
    let mut t = self.root;
    for k in path.split('.') {
      match t {
        Tn::Obj(m) => match m.get(k) {
          Some(n) => t = n,
          None => return Ok(None),
        },
        Tn::Leaf { hist, .. } => {
          if hist.iter().any(|v| matches!(v, Dv::R(..))) {
            return Err(Invalid);
          }
          return Ok(None);
        }
      }
    }
    Ok(Some((t, path.to_string())))
  }
  fn node(&mut self, t: &Tn, path: &str, visiting: &mut Vec<String>) -> Result<Alts, Invalid> {
    match t {
      Tn::Leaf { hist, .. } => {
        let mut a = self.leaf(hist, hist.len() - 1, Some(path), visiting)?;
        if hist.len() > 1 && (is_obj(&a) || is_arr(&a)) {
          // which objects or arrays of the history another document's meets is left open
          push(&mut a, Some(Mv::Leaf(Cv::Other("a collection reached after other values".into()))));
        }
        Ok(a)
      }
      Tn::Obj(m) => {
        let mut o = BTreeMap::new();
        for (k, v) in m {
          let p = if path.is_empty() { k.clone() } else { format!("{}.{}", path, k) };
          let a = self.node(v, &p, visiting)?;
          if a.iter().any(|x| x.is_some()) {
            o.insert(k.clone(), a);
          }
        }
        Ok(vec![Some(Mv::O(o, false))])
      }
    }
  }
  fn leaf(&mut self, hist: &[Dv], i: usize, own: Option<&str>, visiting: &mut Vec<String>) -> Result<Alts, Invalid> {
    self.steps += 1;
    if self.steps > 5000 {
      return Err(Invalid);
    }
    let leaf = |c: Cv| Ok(vec![Some(Mv::Leaf(c))]);
    match &hist[i] {
      Dv::Null => leaf(Cv::Null),
      Dv::B(b) => leaf(Cv::B(*b)),
      Dv::N(s) => leaf(Cv::N(norm_num(s).ok_or(Invalid)?)),
      Dv::D(n, u) => leaf(Cv::D(*n as i128 * unit_ns(u).ok_or(Invalid)? as i128)),
      Dv::Df(m, k, u) => leaf(Cv::D(df_ns(*m, *k, u).ok_or(Invalid)?)),
      Dv::S(s, r) => leaf(Cv::S(s.repeat(*r as usize))),
      Dv::O(f) => {
        // inside an array: no path leads here
        let t = tree(f, false, 0)?;
        self.anon(&t, visiting).map(|a| a)
      }
      Dv::A(l) => {
        let mut v = vec![];
        for x in l {
          let a = self.leaf(std::slice::from_ref(x), 0, None, visiting)?;
          v.push(a);
        }
        Ok(vec![Some(Mv::A(v))])
      }
      Dv::R(path, optional) => {
        let mut alts: Alts = vec![];
        let selfref = visiting.contains(path);
        if selfref {
          if own != Some(path.as_str()) || i == 0 {
            return Err(Invalid);
          }
          alts.push(None);
        } else {
          if own == Some(path.as_str()) && i == 0 {
            return Err(Invalid);
          }
          let target = self.find(path)?;
          let mut missing = true;
          if let Some((t, p)) = target {
            visiting.push(path.clone());
            let a = self.node(t, &p, visiting)?;
            visiting.pop();
            missing = false;
            for x in a {
              match x {
                Some(_) => push(&mut alts, x),
                None => missing = true,
              }
            }
          }
          if missing {
            for e in (self.env)(path) {
              push(&mut alts, e.map(|s| Mv::Leaf(Cv::S(s))));
            }
          }
        }
        if alts.contains(&None) && (*optional || selfref) && i > 0 {
          alts.retain(|a| a.is_some());
          for x in self.leaf(hist, i - 1, own, visiting)? {
            push(&mut alts, x);
          }
        }
        if alts.contains(&None) && !*optional {
          self.may_err = true;
          alts.retain(|a| a.is_some());
        }
        Ok(alts)
      }
    }
  }
  fn anon(&mut self, t: &Tn, visiting: &mut Vec<String>) -> Result<Alts, Invalid> {
    match t {
      Tn::Leaf { hist, .. } => self.leaf(hist, hist.len() - 1, None, visiting),
      Tn::Obj(m) => {
        let mut o = BTreeMap::new();
        for (k, v) in m {
          let a = self.anon(v, visiting)?;
          if a.iter().any(|x| x.is_some()) {
            o.insert(k.clone(), a);
          }
        }
        Ok(vec![Some(Mv::O(o, false))])
      }
    }
  }
}
fn push(a: &mut Alts, x: Option<Mv>) {
  if !a.contains(&x) {
    a.push(x);
  }
}
/// The fields of the loaded document, and whether a mandatory reference may fail. `None` fields: surely failed.
pub fn eval(d: &Doc, env: EnvOf) -> Result<(BTreeMap<String, Alts>, bool, bool), Invalid> {
  if d.form > 1 {
    return Err(Invalid);
  }
  let t = tree(&d.fields, d.form == 0, 0)?;
  let mut ev = Ev { root: &t, env, may_err: false, steps: 0 };
  let r = ev.node(&t, "", &mut vec![])?;
  let may_err = ev.may_err;
  match r.into_iter().next() {
    Some(Some(Mv::O(m, _))) => {
      // a mandatory reference without any alternative: the load must fail
      let must = may_err && surely_failed(&t, env)?;
      Ok((m, may_err, must))
    }
    _ => Err(Invalid),
  }
}
fn surely_failed(t: &Tn, env: EnvOf) -> Result<bool, Invalid> {
  // evaluate under "every variable has its only value": sure only if no variable involved has two values
  let multi = std::cell::Cell::new(false);
  let e2 = |n: &str| {
    let v = env(n);
    if v.len() > 1 {
      multi.set(true);
    }
    v
  };
  let mut ev = Ev { root: t, env: &e2, may_err: false, steps: 0 };
  ev.node(t, "", &mut vec![])?;
  Ok(ev.may_err && !multi.get())
}
fn is_obj(a: &Alts) -> bool {
  a.iter().any(|x| matches!(x, Some(Mv::O(..))))
}
fn is_arr(a: &Alts) -> bool {
  a.iter().any(|x| matches!(x, Some(Mv::A(_))))
}
/// Merges an included document into the ones before it: later values win, objects merge.
pub fn merge(acc: &mut BTreeMap<String, Alts>, later: &BTreeMap<String, Alts>) -> Result<(), Invalid> {
  for (k, b) in later {
    match acc.get_mut(k) {
      None => {
        acc.insert(k.clone(), b.clone());
      }
      Some(a) => {
        if (is_obj(a) || is_obj(b)) && (a.len() > 1 || b.len() > 1) {
          return Err(Invalid);
        }
        if is_arr(a) && is_arr(b) {
          if b.iter().any(|x| matches!(x, Some(Mv::Leaf(Cv::Other(_))))) {
            return Err(Invalid);
          }
          // whether a later array replaces an earlier one or continues it is left open
          let mut n: Alts = vec![];
          for y in b.iter() {
            match y {
              None => a.iter().for_each(|x| push(&mut n, x.clone())),
              Some(Mv::A(y)) => {
                push(&mut n, Some(Mv::A(y.clone())));
                for x in a.iter() {
                  if let Some(Mv::A(x)) = x {
                    push(&mut n, Some(Mv::A(x.iter().chain(y).cloned().collect())));
                  }
                }
              }
              y => push(&mut n, y.clone()),
            }
          }
          if n.len() > 12 {
            return Err(Invalid);
          }
          *a = n;
          continue;
        }
        if is_obj(a) && is_obj(b) {
          match (a.first_mut(), b.first()) {
            (Some(Some(Mv::O(x, _))), Some(Some(Mv::O(y, false)))) => merge(x, y)?,
            _ => *a = b.clone(),
          }
        } else {
          let none = b.contains(&None);
          let mut n: Alts = b.iter().filter(|x| x.is_some()).cloned().collect();
          if none {
            for x in a.iter() {
              push(&mut n, x.clone());
            }
          }
          if let (Some(Some(Mv::O(_, over))), false) = (n.first_mut(), is_obj(a)) {
            *over = true;
          }
          *a = n;
        }
      }
    }
  }
  Ok(())
}
pub fn matches(m: &Mv, c: &Cv) -> bool {
  match (m, c) {
    (Mv::Leaf(a), c) => a == c,
    (Mv::A(l), Cv::A(v)) => match_list(l, v),
    (Mv::O(m, _), Cv::O(v)) => match_obj(m, v),
    _ => false,
  }
}
fn match_list(l: &[Alts], v: &[Cv]) -> bool {
  match l.first() {
    None => v.is_empty(),
    Some(a) => a.iter().any(|x| match x {
      None => match_list(&l[1..], v),
      Some(m) => !v.is_empty() && matches(m, &v[0]) && match_list(&l[1..], &v[1..]),
    }),
  }
}
pub fn match_obj(m: &BTreeMap<String, Alts>, v: &BTreeMap<String, Cv>) -> bool {
  v.keys().all(|k| m.contains_key(k))
    && m.iter().all(|(k, a)| match v.get(k) {
      Some(c) => a.iter().any(|x| x.as_ref().map_or(false, |m| matches(m, c))),
      None => a.contains(&None),
    })
}
pub fn show(m: &BTreeMap<String, Alts>) -> String {
  let one = |a: &Alts| {
    a.iter()
      .map(|x| match x {
        None => "-".to_string(),
        Some(Mv::Leaf(c)) => c.short(),
        Some(Mv::O(o, _)) => show(o),
        Some(Mv::A(l)) => format!("[{} elements]", l.len()),
      })
      .collect::<Vec<_>>()
      .join(" or ")
  };
  format!("{{{}}}", m.iter().map(|(k, a)| format!("{:?}: {}", k, one(a))).collect::<Vec<_>>().join(", "))
}

// ------------------------------------------------------------------ generation
const WORDS: &[&str] =
  &["a", "b", "c", "foo", "bar", "x-y", "z_", "Key", "null-able", "true_x", "s", "m", "d", "ms", "include-me", "file", "akka"];
const TEXTS: &[&str] = &[
  "x",
  "value",
  " lead",
  "trail ",
  "#hash",
  "//slash",
  "a,b",
  "{}",
  "[1]",
  "${a}",
  "${?a}",
  "line\nbreak",
  "q\"uote",
  "it's",
  "back\\slash",
  "caf\u{e9}",
  "\u{65e5}\u{672c}",
  "\u{1F600}",
  "true",
  "null",
  "10s",
  "1.5",
  "a = 1",
  "tab\there",
  "http://h/p?q#f",
  "\\u0041",
  "cr\rlf",
  "bs\u{8}ff\u{c}",
  "INFO",
  "on-demand",
  "off",
  "/a/b",
  "e\u{301}",
];
pub struct GenCfg {
  pub refs: u32,
  pub env_names: Vec<String>,
  pub big: u32,
  pub depth: usize,
  pub quoted_keys: bool,
}
fn gen_num(r: &mut Rng) -> String {
  match r.below(8) {
    0 => "0".into(),
    1 => format!("-{}", r.range(1, 99)),
    2 => format!("{}.{}", r.range(0, 999), r.range(0, 9999)),
    3 => format!("{}e{}", r.range(1, 99), r.range(0, 6)),
    4 => format!("{}.{}E-{}", r.range(1, 9), r.range(1, 99), r.range(1, 6)),
    5 => r.range(i64::MAX / 2, i64::MAX).to_string(),
    6 => format!("-{}.{}e+{}", r.range(0, 99), r.range(0, 99), r.range(0, 8)),
    _ => r.range(0, 99999).to_string(),
  }
}
/// Any text at all.
fn gen_text(r: &mut Rng) -> String {
  let n = 1 + r.logn(24) as usize;
  let wide = r.chance(40);
  (0..n)
    .map(|_| match r.below(if wide { 8 } else { 5 }) {
      0 => char::from(b'0' + r.below(10) as u8),
      1..=4 => char::from(32 + r.below(95) as u8),
      5 => char::from_u32(0xa1 + r.below(0x700) as u32).unwrap(),
      6 => char::from_u32(0x3041 + r.below(0x5000) as u32).unwrap(),
      _ => char::from_u32(0x10000 + r.below(0x2000) as u32).unwrap(),
    })
    .collect()
}
pub fn gen_leaf(r: &mut Rng, g: &GenCfg) -> Dv {
  match r.below(12) {
    0 => Dv::Null,
    1 => Dv::B(r.chance(50)),
    2..=4 => Dv::N(gen_num(r)),
    5 if r.chance(30) => {
      let (u, ns) = *r.pick(UNITS);
      let (m, k) = (r.range(-90_000, 90_000), r.below(7) as u8);
      // a whole number of nanoseconds
      let k = if df_ns(m, k, u).is_some() { k } else { 0 };
      let _ = ns;
      Dv::Df(m, k, u.to_string())
    }
    5 => Dv::D(r.logn(90_000), r.pick(UNITS).0.to_string()),
    7 if r.chance(35) => Dv::S(gen_text(r), 1),
    6 if r.chance(g.big) => Dv::S(r.pick(TEXTS).to_string(), *r.pick(&[600, 2_500, 9_000]) as u32),
    _ => {
      let a = r.pick(TEXTS).to_string();
      let s = if r.chance(50) { a } else { format!("{}{}", a, r.pick(TEXTS)) };
      Dv::S(s, if r.chance(10) { 1 + r.logn(40) as u32 } else { 1 })
    }
  }
}
fn gen_key(r: &mut Rng, g: &GenCfg) -> String {
  if g.quoted_keys && r.chance(8) {
    return r.pick(&["a b", "1", "k=v", "k:v", "\u{e9}t\u{e9}", "{", "#k", "9z"]).to_string();
  }
  let mut k = if r.chance(15) {
    let n = 1 + r.logn(12) as usize;
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_") as char).collect()
  } else {
    r.pick(WORDS).to_string()
  };
  if r.chance(20) {
    k = format!("{}.{}", k, r.pick(WORDS));
  }
  if r.chance(5) {
    k = format!("{}.{}", k, r.pick(WORDS));
  }
  k
}
fn gen_value(r: &mut Rng, g: &GenCfg, depth: usize, paths: &[String]) -> Dv {
  if r.chance(g.refs) {
    let p = if !paths.is_empty() && r.chance(55) {
      r.pick(paths).clone()
    } else if !g.env_names.is_empty() && r.chance(80) {
      r.pick(&g.env_names).clone()
    } else {
      r.pick(WORDS).to_string()
    };
    return Dv::R(p, r.chance(50));
  }
  if depth < g.depth && r.chance(18) {
    let n = r.usize(5);
    return Dv::A((0..n).map(|_| gen_value(r, g, depth + 1, paths)).collect());
  }
  if depth < g.depth && r.chance(25) {
    return Dv::O(gen_fields(r, g, depth + 1, paths));
  }
  gen_leaf(r, g)
}
fn gen_fields(r: &mut Rng, g: &GenCfg, depth: usize, paths: &[String]) -> Vec<(String, Dv)> {
  let n = r.usize(if depth == 0 { 8 } else { 5 });
  (0..n).map(|_| (gen_key(r, g), gen_value(r, g, depth, paths))).collect()
}
fn leaf_paths(f: &[(String, Dv)], pre: &str, out: &mut Vec<String>) {
  for (k, v) in f {
    if !path_like(k) {
      continue;
    }
    let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
    if let Dv::O(x) = v {
      leaf_paths(x, &p, out);
    }
    out.push(p);
  }
}
/// A document, valid for the evaluator unless `wild`.
pub fn gen_doc(r: &mut Rng, g: &GenCfg, wild: bool) -> Doc {
  for _ in 0..30 {
    let mut d = Doc { form: r.below(2) as u8, style: r.next(), fields: vec![], pad: 0 };
    let base = gen_fields(r, &GenCfg { refs: 0, env_names: vec![], ..*g }, 0, &[]);
    let mut paths = vec![];
    leaf_paths(&base, "", &mut paths);
    d.fields = base;
    if g.refs > 0 {
      for _ in 0..r.usize(4) + 1 {
        let k = if !paths.is_empty() && r.chance(55) { r.pick(&paths).clone() } else { gen_key(r, g) };
        let v = gen_value(r, g, 1, &paths);
        let at = if r.chance(60) { d.fields.len() } else { r.usize(d.fields.len() + 1) };
        d.fields.insert(at, (k, v));
      }
    }
    // repeat some leaf to give it a history
    if !d.fields.is_empty() && r.chance(30) {
      let i = r.usize(d.fields.len());
      if !matches!(d.fields[i].1, Dv::A(_) | Dv::O(_)) {
        let k = d.fields[i].0.clone();
        let v = gen_leaf(r, g);
        d.fields.push((k, v));
      }
    }
    if wild || eval(&d, &|_| vec![Some("v".into()), None]).is_ok() {
      return d;
    }
  }
  Doc { form: 0, style: r.next(), fields: vec![("a".into(), gen_leaf(r, g))], pad: 0 }
}
/// The same document with one value changed, its text keeping its length where possible.
pub fn twist(r: &mut Rng, d: &Doc) -> Doc {
  let mut d = d.clone();
  fn leaves<'a>(v: &'a mut Dv, out: &mut Vec<&'a mut Dv>) {
    match v {
      Dv::A(l) => l.iter_mut().for_each(|x| leaves(x, out)),
      Dv::O(f) => f.iter_mut().for_each(|x| leaves(&mut x.1, out)),
      v => out.push(v),
    }
  }
  let mut l = vec![];
  d.fields.iter_mut().for_each(|x| leaves(&mut x.1, &mut l));
  let n = l.len();
  if n == 0 {
    return d;
  }
  for _ in 0..1 + r.usize(3) {
    let i = r.usize(n);
    match &mut *l[i] {
      Dv::B(b) => *b = !*b,
      Dv::N(s) => {
        let t: String = s.chars().map(|c| if c.is_ascii_digit() && c != '0' { char::from(b'1' + r.below(9) as u8) } else { c }).collect();
        if norm_num(&t).is_some() {
          *s = t;
        }
      }
      Dv::Df(m, k, u) => {
        if df_ns(-*m, *k, u).is_some() {
          *m = -*m
        }
      }
      Dv::D(n, _) => {
        if *n < 9 {
          *n += 1
        }
      }
      Dv::S(s, _) => {
        let t: String =
          s.chars().map(|c| if c.is_ascii_lowercase() { char::from(b'a' + r.below(26) as u8) } else { c }).collect();
        *s = t;
      }
      _ => {}
    }
  }
  d
}
/// Paths of the document that `get_value` can be asked for, and some it does not have.
pub fn ask_paths(c: &Cv) -> Vec<(String, Option<Cv>)> {
  fn walk(c: &Cv, pre: &str, out: &mut Vec<(String, Option<Cv>)>) {
    if let Cv::O(m) = c {
      for (k, v) in m {
        if !plain_key(k) {
          continue;
        }
        let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
        walk(v, &p, out);
        if !m.contains_key("zz-none") {
          out.push((if pre.is_empty() { "zz-none".into() } else { format!("{}.zz-none", pre) }, None));
        }
        if !matches!(v, Cv::O(_)) {
          out.push((format!("{}.zz", p), None));
        }
        if out.len() < 12 {
          // near misses
          let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
          let mut near = vec![k.chars().map(flip).collect::<String>(), format!("{}s", k), format!("{}-{}", k, k)];
          near.push(k.chars().enumerate().map(|(i, c)| if i == 0 { flip(c) } else { c }).collect());
          if k.len() > 1 {
            near.push(k[..k.len() - 1].to_string());
            near.push(k[1..].to_string());
          }
          for n in near {
            if path_like(&n) && !n.contains('.') && !m.contains_key(&n) {
              out.push((if pre.is_empty() { n } else { format!("{}.{}", pre, n) }, None));
            }
          }
        }
        out.push((p, Some(v.clone())));
      }
    }
  }
  let mut v = vec![];
  walk(c, "", &mut v);
  let mut seen = BTreeSet::new();
  v.retain(|x| seen.insert(x.0.clone()));
  v
}
