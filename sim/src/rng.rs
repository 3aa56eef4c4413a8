//! The only source of randomness of the harness: SplitMix64 seeding, xoshiro256** output.
#[derive(Clone)]
pub struct Rng {
  s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  h
}
impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut x = seed;
    let mut s = [0u64; 4];
    for v in s.iter_mut() {
      x = x.wrapping_add(0x9E3779B97F4A7C15);
      *v = mix(x);
    }
    Rng { s }
  }
  pub fn next(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0];
    self.s[3] ^= self.s[1];
    self.s[1] ^= self.s[2];
    self.s[0] ^= self.s[3];
    self.s[2] ^= t;
    self.s[3] = self.s[3].rotate_left(45);
    r
  }
  /// Uniform in 0..n (0 if n == 0).
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      self.next() % n
    }
  }
  pub fn usize(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as u64) as i64
  }
  pub fn chance(&mut self, pct: u32) -> bool {
    self.below(100) < pct as u64
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.usize(v.len())]
  }
  /// Log-uniform in 1..=max.
  pub fn logn(&mut self, max: u64) -> u64 {
    let bits = 64 - max.leading_zeros() as u64;
    let b = self.below(bits);
    let v = (1u64 << b) + self.below(1u64 << b);
    v.min(max).max(1)
  }
  pub fn fork(&mut self) -> Rng {
    Rng::new(self.next())
  }
}
