//! The only source of randomness in the harness: splitmix64 / xoshiro256**.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix_str(seed: u64, s: &str) -> u64 {
    s.bytes().fold(mix(seed), |h, b| mix(h ^ b as u64))
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0u64; 4];
        let mut z = seed;
        for v in s.iter_mut() {
            z = mix(z);
            *v = z;
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % n as u64) as usize
    }
    /// Uniform integer in lo..=hi.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.unit() as f32
    }
    /// Log-uniform in lo..hi (both positive).
    pub fn logf(&mut self, lo: f32, hi: f32) -> f32 {
        (self.f(lo.ln(), hi.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[f64]) -> usize {
        let t: f64 = w.iter().sum();
        let mut x = self.unit() * t;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= *v;
        }
        w.iter().rposition(|v| *v > 0.0).unwrap_or(0)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

/// FNV-style running hash used for state digests and run signatures.
#[derive(Clone, Copy)]
pub struct Hash(pub u64);

impl Default for Hash {
    fn default() -> Self {
        Hash(0xcbf2_9ce4_8422_2325)
    }
}

impl Hash {
    pub fn u(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v).wrapping_mul(0x1000_0000_01b3);
    }
    pub fn f(&mut self, v: f32) {
        // -0.0 and 0.0 are different states of the engine; hash the bits.
        self.u(v.to_bits() as u64);
    }
    pub fn s(&mut self, s: &str) {
        for b in s.bytes() {
            self.u(b as u64);
        }
    }
}
