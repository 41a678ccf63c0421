//! The only source of randomness: a counter-seeded generator, so that every case
//! is a pure function of (VERIF_SEED, property, phase, index).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, a: u64, b: u64, c: u64) -> Rng {
        let x = mix(seed ^ mix(a ^ mix(b ^ mix(c))));
        let y = mix(x ^ 0xd1b54a32d192ed03);
        Rng { s: [x, y | 1] }
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128++
        let [s0, mut s1] = self.s;
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.s[1] = s1.rotate_left(28);
        r
    }
    #[inline]
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// Uniform in 0..n (n > 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in lo..=hi.
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 != 0
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}
