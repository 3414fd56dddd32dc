//! Small deterministic PRNG (splitmix64 / xorshift) and hashing helpers.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0xA5A5_1234);
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    pub fn chance(&mut self, ppm: u32) -> bool {
        self.below(1_000_000) < ppm as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Number of failures before the next success with probability ppm / 1e6.
    pub fn geom(&mut self, ppm: u32) -> u64 {
        if ppm == 0 {
            return u64::MAX / 2;
        }
        if ppm >= 1_000_000 {
            return 0;
        }
        let u = ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64;
        let p = ppm as f64 / 1e6;
        (u.ln() / (1.0 - p).ln()) as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
