//! Values of the simulated grammars: counted, hashed, and cloned by user code that may be pre-empted or panic.
use super::live;
use crate::rng::{hash_str, mix};
use std::fmt;

#[derive(Clone, Copy)]
pub struct Fold {
  pub cb: u16,
  pub op: u64,
}
pub enum K {
  U,
  B(bool),
  C(char),
  S(String),
  N(usize),
  L(Vec<V>),
  P(Box<(V, V)>),
  O(Option<Box<V>>),
  M(u16, Box<V>),
  F(Fold, Box<(V, V)>),
}
pub struct V {
  pub k: K,
  /// Structural hash; two values are equal iff their hashes are.
  pub h: u64,
  tok: Tok,
}
/// A token that exists once per live value.
struct Tok(u32);
impl Tok {
  fn new() -> Tok {
    Tok(crate::util::harness(live::born))
  }
}
impl Drop for Tok {
  fn drop(&mut self) {
    crate::util::harness(|| live::died(self.0))
  }
}
impl V {
  fn new(k: K) -> V {
    let c = |t: u64, xs: &[u64]| xs.iter().fold(mix(t ^ 0x5151), |a, x| mix(a ^ x.rotate_left(17)));
    let h = match &k {
      K::U => c(1, &[]),
      K::B(b) => c(2, &[*b as u64]),
      K::C(x) => c(3, &[*x as u64]),
      K::S(s) => c(4, &[hash_str(s), s.len() as u64]),
      K::N(n) => c(5, &[*n as u64]),
      K::L(v) => c(6 + ((v.len() as u64) << 8), &v.iter().map(|x| x.h).collect::<Vec<_>>()),
      K::P(p) => c(7, &[p.0.h, p.1.h]),
      K::O(o) => c(8, &[o.as_ref().map_or(0, |x| x.h | 1)]),
      K::M(cb, v) => c(9, &[*cb as u64, v.h]),
      K::F(f, p) => c(10, &[f.cb as u64, f.op, p.0.h, p.1.h]),
    };
    V { k, h, tok: Tok::new() }
  }
  pub fn u() -> V {
    V::new(K::U)
  }
  pub fn b(b: bool) -> V {
    V::new(K::B(b))
  }
  pub fn c(c: char) -> V {
    V::new(K::C(c))
  }
  pub fn s(s: String) -> V {
    V::new(K::S(s))
  }
  pub fn n(n: usize) -> V {
    V::new(K::N(n))
  }
  pub fn l(v: Vec<V>) -> V {
    V::new(K::L(v))
  }
  pub fn p(a: V, b: V) -> V {
    V::new(K::P(Box::new((a, b))))
  }
  pub fn o(o: Option<V>) -> V {
    V::new(K::O(o.map(Box::new)))
  }
  pub fn m(cb: u16, v: V) -> V {
    V::new(K::M(cb, Box::new(v)))
  }
  pub fn f(f: Fold, a: V, b: V) -> V {
    V::new(K::F(f, Box::new((a, b))))
  }
  fn copy(&self) -> V {
    let k = match &self.k {
      K::U => K::U,
      K::B(b) => K::B(*b),
      K::C(c) => K::C(*c),
      K::S(s) => K::S(s.clone()),
      K::N(n) => K::N(*n),
      K::L(v) => K::L(v.iter().map(|x| x.copy()).collect()),
      K::P(p) => K::P(Box::new((p.0.copy(), p.1.copy()))),
      K::O(o) => K::O(o.as_ref().map(|x| Box::new(x.copy()))),
      K::M(cb, v) => K::M(*cb, Box::new(v.copy())),
      K::F(f, p) => K::F(*f, Box::new((p.0.copy(), p.1.copy()))),
    };
    V { k, h: self.h, tok: Tok::new() }
  }
}
impl Clone for V {
  fn clone(&self) -> V {
    live::user_code(live::CLONE);
    let _ = self.tok.0;
    self.copy()
  }
}
impl fmt::Debug for V {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match &self.k {
      K::U => write!(f, "()"),
      K::B(b) => write!(f, "{}", b),
      K::C(c) => write!(f, "{:?}", c),
      K::S(s) => write!(f, "{:?}", s),
      K::N(n) => write!(f, "{}", n),
      K::L(v) => f.debug_list().entries(v).finish(),
      K::P(p) => write!(f, "({:?}, {:?})", p.0, p.1),
      K::O(o) => write!(f, "{:?}", o),
      K::M(cb, v) => write!(f, "m{}[{:?}]", cb, v),
      K::F(o, p) => write!(f, "f{}.{:x}[{:?}, {:?}]", o.cb, o.op & 0xff, p.0, p.1),
    }
  }
}
