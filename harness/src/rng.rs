//! Deterministic PRNG (xoshiro256**, seeded by splitmix64).
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for p in parts { let mut x = h ^ p.wrapping_mul(0xD6E8FEB86659FD93); h = splitmix(&mut x); }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    mix(&[h])
}
impl Rng {
    pub fn new(seed: u64) -> Self { let mut x = seed; Rng { s: std::array::from_fn(|_| splitmix(&mut x)) } }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n>0)
    pub fn below(&mut self, n: usize) -> usize { assert!(n > 0); (self.u64() % n as u64) as usize }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize { lo + self.below(hi_incl - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn pick_opt<'a, T>(&mut self, xs: &'a [T]) -> Option<&'a T> { if xs.is_empty() { None } else { Some(self.pick(xs)) } }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); } }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut r = self.below(tot.max(1));
        for (i, w) in ws.iter().enumerate() { if r < *w { return i; } r -= w; }
        ws.len() - 1
    }
    /// Interesting 64-bit ints
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0, 1 => 1, 2 => u64::MAX, 3 => 1u64 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1), 5 => self.u64() & 0xf,
            6 => (self.u64() & 0xf).wrapping_neg(), _ => self.u64() >> self.below(64),
        }
    }
}
