/// xoshiro-like small deterministic generator.
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15, seed.wrapping_mul(0xBF58476D1CE4E5B9) | 1);
        for _ in 0..4 { r.u64(); }
        r
    }
    pub fn derive(seed: u64, parts: &[u64]) -> Self {
        let mut h = seed.wrapping_add(0x1234_5678_9ABC_DEF1);
        for &p in parts { h = (h ^ p).wrapping_mul(0x100000001B3).rotate_left(23) ^ (p << 7); h = mix(h); }
        Rng::new(h)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let mut a = self.0; let b = self.1;
        self.0 = b; a ^= a << 23; a ^= a >> 17; a ^= b ^ (b >> 26); self.1 = a;
        a.wrapping_add(b)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { mix(self.u64()) % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn bool(&mut self) -> bool { self.u64() & 0x10000 != 0 }
    pub fn pick<'x, T>(&mut self, s: &'x [T]) -> &'x T { &s[self.us(s.len())] }
    /// Edge-biased 128-bit integer.
    pub fn int(&mut self) -> u128 {
        let wide = |r: &mut Self| ((r.u64() as u128) << 64) | r.u64() as u128;
        match self.below(10) {
            0 => 0,
            1 => 1,
            2 => !0,
            3 => { let s = self.below(128); (1u128 << s).wrapping_sub(self.below(3) as u128).wrapping_add(self.below(2) as u128) }
            4 => { let s = self.below(128); !((1u128 << s).wrapping_sub(self.below(2) as u128)) }
            5 => self.below(256) as u128,
            6 => { let n = [7u64, 8, 15, 16, 31, 32, 63, 64][self.us(8)]; (1u128 << n).wrapping_sub(self.below(2) as u128) }
            7 => { let w = wide(self); let s = self.below(128); w >> s }
            _ => wide(self),
        }
    }
}
#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325 ^ (b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
    let mut it = b.chunks_exact(8);
    for c in &mut it { h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_add(0x9E37); }
    for &x in it.remainder() { h = mix(h ^ x as u64).wrapping_add(0x79B9); }
    mix(h)
}
