//! Deterministic generator (SplitMix64); every random choice of a run derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn mix(parts: &[u64]) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for p in parts {
            let mut r = Rng(h ^ p.wrapping_mul(0x100_0000_01b3));
            h = r.u64();
        }
        Rng(h)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: i128, hi: i128) -> i128 {
        if hi <= lo {
            return lo;
        }
        let span = (hi - lo) as u128 + 1;
        let r = ((self.u64() as u128) << 64 | self.u64() as u128) % span;
        lo + r as i128
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform magnitude in [1, max]
    pub fn logu(&mut self, max: i128) -> i128 {
        let bits = 127 - max.max(1).leading_zeros() as u64;
        let b = self.below(bits + 1) as u32;
        let lo = 1i128 << b;
        let hi = (lo * 2 - 1).min(max.max(1));
        self.range(lo.min(hi), hi)
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}
