//! Fixed-size 512-bit unsigned integers for exact arithmetic in the model.

use std::cmp::Ordering;

pub const N: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct W(pub [u64; N]);

impl W {
    pub const ZERO: W = W([0; N]);

    pub fn from(x: u128) -> W {
        let mut r = [0; N];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        W(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|&x| x == 0)
    }
    pub fn bitlen(&self) -> i32 {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return (i * 64) as i32 + 64 - self.0[i].leading_zeros() as i32;
            }
        }
        0
    }
    pub fn bit(&self, i: i32) -> bool {
        i >= 0 && (i as usize) < N * 64 && self.0[i as usize / 64] >> (i % 64) & 1 != 0
    }
    /// Low 128 bits; panics if the value does not fit.
    pub fn u128(&self) -> u128 {
        assert!(self.bitlen() <= 128, "model: value too wide");
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
    pub fn shl(&self, s: i32) -> W {
        assert!(s >= 0 && (self.is_zero() || self.bitlen() + s <= (N * 64) as i32), "model: shl overflow");
        let mut r = [0; N];
        if self.is_zero() {
            return W::ZERO;
        }
        let (w, b) = ((s / 64) as usize, (s % 64) as u32);
        for i in (w..N).rev() {
            let mut v = self.0[i - w] << b;
            if b != 0 && i > w {
                v |= self.0[i - w - 1] >> (64 - b);
            }
            r[i] = v;
        }
        W(r)
    }
    /// Shift right; the flag tells whether any set bit was lost.
    pub fn shr(&self, s: i32) -> (W, bool) {
        assert!(s >= 0);
        if s >= (N * 64) as i32 {
            return (W::ZERO, !self.is_zero());
        }
        let (w, b) = ((s / 64) as usize, (s % 64) as u32);
        let mut lost = self.0[..w].iter().any(|&x| x != 0);
        if b != 0 {
            lost |= self.0[w] << (64 - b) != 0;
        }
        let mut r = [0; N];
        for i in 0..N - w {
            let mut v = self.0[i + w] >> b;
            if b != 0 && i + w + 1 < N {
                v |= self.0[i + w + 1] << (64 - b);
            }
            r[i] = v;
        }
        (W(r), lost)
    }
    pub fn add(&self, o: &W) -> W {
        let mut r = [0; N];
        let mut c = false;
        for i in 0..N {
            let (x, c1) = self.0[i].overflowing_add(o.0[i]);
            let (y, c2) = x.overflowing_add(c as u64);
            r[i] = y;
            c = c1 | c2;
        }
        assert!(!c, "model: add overflow");
        W(r)
    }
    pub fn sub(&self, o: &W) -> W {
        let mut r = [0; N];
        let mut c = false;
        for i in 0..N {
            let (x, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (y, c2) = x.overflowing_sub(c as u64);
            r[i] = y;
            c = c1 | c2;
        }
        assert!(!c, "model: sub underflow");
        W(r)
    }
    pub fn cmp(&self, o: &W) -> Ordering {
        for i in (0..N).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
    pub fn mul(a: u128, b: u128) -> W {
        let (a0, a1) = (a as u64 as u128, a >> 64);
        let (b0, b1) = (b as u64 as u128, b >> 64);
        W::from(a0 * b0)
            .add(&W::from(a1 * b0).shl(64))
            .add(&W::from(a0 * b1).shl(64))
            .add(&W::from(a1 * b1).shl(128))
    }
    /// Schoolbook bit-by-bit division by a value below 2^127: (quotient, remainder).
    pub fn divrem(&self, d: u128) -> (W, u128) {
        assert!(d != 0 && d < 1 << 127);
        let mut q = W::ZERO;
        let mut r: u128 = 0;
        for i in (0..self.bitlen()).rev() {
            r = r << 1 | self.bit(i) as u128;
            if r >= d {
                r -= d;
                q.0[i as usize / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
}
