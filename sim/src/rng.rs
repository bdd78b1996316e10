//! The only source of choice: one PRNG, seeded from (VERIF_SEED, profile, run index).
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x6c69_6272_7262_5f31))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b + 1 - a)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.next() % 100 < p as u64
    }
    /// Small values likely, up to about `max`.
    pub fn log(&mut self, max: usize) -> usize {
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.below(bits + 1);
        self.below((1usize << b).min(max + 1))
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
