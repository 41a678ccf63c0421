//! Reference model of the formats and of every IEEE operation, written from the
//! IEEE-754 definitions and the documentation of the library: exact arithmetic
//! on integers followed by one rounding.

use crate::big::Big;
use crate::wide::W;
use apf_ops::{Cat, DIVZERO, INEXACT, INVALID, NTA, NTE, OVERFLOW, TONEG, TOPOS, TOZERO, UNDERFLOW};
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Spec {
    pub name: &'static str,
    pub bits: u32,
    pub p: i32,
    pub emin: i32,
    pub emax: i32,
    pub nan_only: bool,
    pub x87: bool,
}

const fn ieee(name: &'static str, bits: u32, p: i32, emax: i32) -> Spec {
    Spec { name, bits, p, emin: 1 - emax, emax, nan_only: false, x87: false }
}

/// Parameters of each format, from the standards that define them.
pub const SPECS: [Spec; 21] = [
    ieee("Half", 16, 11, 15),
    ieee("Single", 32, 24, 127),
    ieee("Double", 64, 53, 1023),
    ieee("Quad", 128, 113, 16383),
    ieee("BFloat", 16, 8, 127),
    ieee("Float8E5M2", 8, 3, 15),
    Spec { name: "Float8E4M3FN", bits: 8, p: 4, emin: -6, emax: 8, nan_only: true, x87: false },
    Spec { name: "X87DoubleExtended", bits: 80, p: 64, emin: -16382, emax: 16383, nan_only: false, x87: true },
    ieee("Custom6E3", 6, 3, 3),
    ieee("Custom8E4", 8, 4, 7),
    Spec { name: "Custom9E5NanOnly", bits: 9, p: 4, emin: -14, emax: 16, nan_only: true, x87: false },
    ieee("Custom19E8", 19, 11, 127),
    ieee("Custom96E15", 96, 81, 16383),
    ieee("Custom128E8", 128, 120, 127),
    ieee("Custom9E3", 9, 6, 3),
    ieee("Custom24E4", 24, 20, 7),
    Spec { name: "Custom12E5Biased", bits: 12, p: 7, emin: -20, emax: 9, nan_only: false, x87: false },
    Spec { name: "Custom8E4NanOnlyBiased", bits: 8, p: 4, emin: -9, emax: 5, nan_only: true, x87: false },
    ieee("Custom128E3", 128, 125, 3),
    ieee("Custom6E4", 6, 2, 7),
    Spec { name: "Custom6E4NanOnly", bits: 6, p: 2, emin: -6, emax: 8, nan_only: true, x87: false },
];

/// The 106-bit format behind the double-double operations that have no
/// dedicated algorithm (it has no encoding of its own).
pub const FALLBACK: Spec = Spec { name: "106-bit", bits: 0, p: 106, emin: -969, emax: 1023, nan_only: false, x87: false };

pub fn mask(n: i32) -> u128 {
    if n <= 0 {
        0
    } else if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Val {
    /// Sign and significand field (for x87: all 64 significand bits).
    Nan(bool, u128),
    Inf(bool),
    Zero(bool),
    /// Sign, integer significand (non-zero), exponent of its lowest bit.
    Fin(bool, u128, i32),
}
use Val::*;

impl Val {
    pub fn neg(&self) -> bool {
        match *self {
            Nan(s, _) | Inf(s) | Zero(s) | Fin(s, _, _) => s,
        }
    }
    pub fn with_sign(self, s: bool) -> Val {
        match self {
            Nan(_, f) => Nan(s, f),
            Inf(_) => Inf(s),
            Zero(_) => Zero(s),
            Fin(_, m, e) => Fin(s, m, e),
        }
    }
    pub fn flip(self) -> Val {
        self.with_sign(!self.neg())
    }
    pub fn is_nan(&self) -> bool {
        matches!(self, Nan(..))
    }
    pub fn is_fin(&self) -> bool {
        matches!(self, Fin(..))
    }
    pub fn cat(&self) -> Cat {
        match self {
            Nan(..) => Cat::NaN,
            Inf(_) => Cat::Inf,
            Zero(_) => Cat::Zero,
            Fin(..) => Cat::Normal,
        }
    }
}

pub fn bitlen(x: u128) -> i32 {
    128 - x.leading_zeros() as i32
}

impl Spec {
    pub fn expbits(&self) -> i32 {
        if self.x87 {
            15
        } else {
            self.bits as i32 - self.p
        }
    }
    pub fn fracbits(&self) -> i32 {
        if self.x87 {
            64
        } else {
            self.p - 1
        }
    }
    pub fn signbit(&self) -> u128 {
        1 << (self.bits - 1)
    }
    pub fn qmin(&self) -> i32 {
        self.emin - self.p + 1
    }
    /// Mask of all the bits of the interchange encoding.
    pub fn mask(&self) -> u128 {
        mask(self.bits as i32)
    }

    pub fn decode(&self, bits: u128) -> Val {
        let s = bits & self.signbit() != 0;
        let fb = self.fracbits();
        let e = ((bits >> fb) & mask(self.expbits())) as i32;
        let f = bits & mask(fb);
        let top = mask(self.expbits()) as i32;
        if self.x87 {
            let int = f >> 63 != 0;
            return if e == 0 && f == 0 {
                Zero(s)
            } else if e == top && f == 1 << 63 {
                Inf(s)
            } else if e == top || e != 0 && !int {
                // NaNs, pseudo-NaNs, pseudo-infinities, unnormals
                Nan(s, f)
            } else {
                Fin(s, f, self.qmin() + (e.max(1) - 1))
            };
        }
        if e == 0 {
            if f == 0 {
                Zero(s)
            } else {
                Fin(s, f, self.qmin())
            }
        } else if self.nan_only {
            if e == top && f == mask(fb) {
                Nan(s, f)
            } else {
                Fin(s, f | 1 << fb, self.qmin() + e - 1)
            }
        } else if e == top {
            if f == 0 {
                Inf(s)
            } else {
                Nan(s, f)
            }
        } else {
            Fin(s, f | 1 << fb, self.qmin() + e - 1)
        }
    }

    /// Encoding of a value that is representable (a finite value must be given
    /// with a significand of at most `p` bits at an exponent in range).
    pub fn encode(&self, v: Val) -> u128 {
        let top = mask(self.expbits());
        let (s, e, f) = match v {
            Nan(s, f) => (s, top, f),
            Inf(s) => {
                if self.nan_only {
                    (s, top, mask(self.fracbits()))
                } else {
                    (s, top, if self.x87 { 1 << 63 } else { 0 })
                }
            }
            Zero(s) => (s, 0, 0),
            Fin(s, m, e) => {
                let (m, e) = self.canon(m, e);
                if m >> (self.p - 1) == 0 {
                    (s, 0, m)
                } else {
                    ((s), (e - self.qmin() + 1) as u128, if self.x87 { m } else { m & mask(self.p - 1) })
                }
            }
        };
        (s as u128) << (self.bits - 1) | e << self.fracbits() | f
    }

    /// Brings (m, e) to the canonical form: p-bit significand, or exponent qmin.
    pub fn canon(&self, m: u128, e: i32) -> (u128, i32) {
        let q = (bitlen(m) + e - self.p).max(self.qmin());
        if q <= e {
            (m << (e - q), q)
        } else {
            assert!(m & mask(q - e) == 0, "model: value not representable");
            (m >> (q - e), q)
        }
    }

    pub fn qbit(&self) -> u128 {
        if self.nan_only {
            0
        } else if self.x87 {
            3 << 62
        } else {
            1 << (self.p - 2)
        }
    }
    pub fn payload_mask(&self) -> u128 {
        if self.nan_only {
            0
        } else {
            mask(self.p - 1)
        }
    }
    pub fn nan_base(&self) -> u128 {
        if self.nan_only {
            mask(self.p - 1)
        } else {
            0
        }
    }
    pub fn signaling(&self, v: Val) -> bool {
        match v {
            Nan(_, f) => f & self.qbit() != self.qbit(),
            _ => false,
        }
    }
    pub fn quiet(&self, v: Val) -> Val {
        match v {
            Nan(s, f) if self.signaling(v) => Nan(s, f | (self.qbit() & self.payload_mask())),
            _ => v,
        }
    }
    pub fn nan(&self) -> Val {
        Nan(false, self.nan_base() | self.qbit())
    }
    pub fn inf(&self, s: bool) -> Val {
        if self.nan_only {
            self.nan().with_sign(s)
        } else {
            Inf(s)
        }
    }
    pub fn largest(&self, s: bool) -> Val {
        Fin(s, mask(self.p) - self.nan_only as u128, self.emax - self.p + 1)
    }
    pub fn smallest(&self, s: bool) -> Val {
        Fin(s, 1, self.qmin())
    }
    pub fn smallest_normal(&self, s: bool) -> Val {
        Fin(s, 1 << (self.p - 1), self.qmin())
    }

    // ----------------------------------------------------------- rounding
    /// Rounds (-1)^neg * (m + d) * 2^e, where 0 < d < 1 if `sticky` and d = 0 otherwise.
    pub fn round(&self, neg: bool, m: &W, e: i64, sticky: bool, rm: u8) -> (Val, u8) {
        assert!(!m.is_zero(), "model: rounding nothing");
        let top = m.bitlen() as i64 + e; // 2^(top-1) <= |x| < 2^top
        let q = (top - self.p as i64).max(self.qmin() as i64);
        // |x| = (n + guard/2 + rest) * 2^q
        let (mut n, half, rest) = if q <= e {
            let s = (e - q) as i32;
            (m.shl(s).u128(), false, sticky)
        } else {
            let s = (q - e).min(2000) as i32;
            let (n, _) = m.shr(s);
            let half = m.bit(s - 1);
            let low = m.shr(s - 1).1;
            (n.u128(), half, low || sticky)
        };
        assert!(!sticky || q > e, "model: not enough bits for a sticky result");
        let inexact = half || rest;
        let up = inexact
            && match rm {
                NTE => half && (rest || n & 1 == 1),
                NTA => half,
                TOPOS => !neg,
                TONEG => neg,
                TOZERO => false,
                _ => unreachable!(),
            };
        n += up as u128;
        let mut q = q;
        if n == 1 << self.p {
            n >>= 1;
            q += 1;
        }
        if n == 0 {
            return (Zero(neg), UNDERFLOW | INEXACT);
        }
        let msb = bitlen(n) as i64 + q - 1;
        if msb > self.emax as i64 || self.nan_only && msb == self.emax as i64 && n == mask(self.p) {
            return self.overflow(neg, rm);
        }
        let status = if !inexact {
            0
        } else if n >> (self.p - 1) == 0 {
            UNDERFLOW | INEXACT
        } else {
            INEXACT
        };
        (Fin(neg, n, q as i32), status)
    }

    pub fn overflow(&self, neg: bool, rm: u8) -> (Val, u8) {
        let to_inf = match rm {
            NTE | NTA => true,
            TOPOS => !neg,
            TONEG => neg,
            _ => false,
        };
        if to_inf {
            (self.inf(neg), OVERFLOW | INEXACT)
        } else {
            (self.largest(neg), INEXACT)
        }
    }

    // --------------------------------------------------------- operations
    fn nan2(&self, a: Val, b: Val) -> (Val, u8) {
        let r = if a.is_nan() { a } else { b };
        let inv = self.signaling(a) || self.signaling(b);
        (self.quiet(r), if inv { INVALID } else { 0 })
    }

    pub fn add(&self, a: Val, b: Val, rm: u8) -> (Val, u8) {
        match (a, b) {
            (Nan(..), _) | (_, Nan(..)) => self.nan2(a, b),
            (Inf(s), Inf(t)) => {
                if s == t {
                    (a, 0)
                } else {
                    (self.nan(), INVALID)
                }
            }
            (Inf(_), _) => (a, 0),
            (_, Inf(_)) => (b, 0),
            (Zero(s), Zero(t)) => (Zero(if s == t { s } else { rm == TONEG }), 0),
            (Zero(_), _) => (b, 0),
            (_, Zero(_)) => (a, 0),
            (Fin(s, m, e), Fin(t, n, f)) => self.sum((s, W::from(m), e as i64), (t, W::from(n), f as i64), rm),
        }
    }

    pub fn sub(&self, a: Val, b: Val, rm: u8) -> (Val, u8) {
        if b.is_nan() {
            self.add(a, b, rm)
        } else {
            self.add(a, b.flip(), rm)
        }
    }

    /// Rounded sum of two non-zero exact values of at most 250 significant bits each.
    fn sum(&self, a: (bool, W, i64), b: (bool, W, i64), rm: u8) -> (Val, u8) {
        let (x, y) = if a.1.bitlen() as i64 + a.2 >= b.1.bitlen() as i64 + b.2 { (a, b) } else { (b, a) };
        // Place the leading bit of the larger one at bit 500; anything of the smaller
        // one that falls below bit 0 is far beneath the rounding position, and only
        // its being non-zero matters.
        let k = 500 - x.1.bitlen();
        let base = x.2 - k as i64;
        let xm = x.1.shl(k);
        let (ym, lost) = if y.2 >= base { (y.1.shl((y.2 - base) as i32), false) } else { y.1.shr((base - y.2).min(2000) as i32) };
        if x.0 == y.0 {
            return self.round(x.0, &xm.add(&ym), base, lost, rm);
        }
        // Different signs; at most one unit at bit 500 can make y larger than x.
        match xm.cmp(&ym) {
            Ordering::Equal if !lost => (Zero(rm == TONEG), 0),
            Ordering::Greater => {
                let mut d = xm.sub(&ym);
                if lost {
                    d = d.sub(&W::from(1));
                }
                self.round(x.0, &d, base, lost, rm)
            }
            _ => {
                assert!(!lost, "model: cancellation with lost bits");
                self.round(y.0, &ym.sub(&xm), base, false, rm)
            }
        }
    }

    pub fn mul(&self, a: Val, b: Val, rm: u8) -> (Val, u8) {
        let s = a.neg() != b.neg();
        match (a, b) {
            (Nan(..), _) | (_, Nan(..)) => self.nan2(a, b),
            (Inf(_), Zero(_)) | (Zero(_), Inf(_)) => (self.nan(), INVALID),
            (Inf(_), _) | (_, Inf(_)) => (Inf(s), 0),
            (Zero(_), _) | (_, Zero(_)) => (Zero(s), 0),
            (Fin(_, m, e), Fin(_, n, f)) => self.round(s, &W::mul(m, n), e as i64 + f as i64, false, rm),
        }
    }

    pub fn div(&self, a: Val, b: Val, rm: u8) -> (Val, u8) {
        let s = a.neg() != b.neg();
        match (a, b) {
            (Nan(..), _) | (_, Nan(..)) => self.nan2(a, b),
            (Inf(_), Inf(_)) | (Zero(_), Zero(_)) => (self.nan(), INVALID),
            (Inf(_), _) => (Inf(s), 0),
            (Zero(_), _) => (Zero(s), 0),
            (_, Inf(_)) => (Zero(s), 0),
            (_, Zero(_)) => (self.inf(s), DIVZERO),
            (Fin(_, m, e), Fin(_, n, f)) => {
                // Quotient with at least p + 3 bits.
                let k = self.p + 4 + bitlen(n) - bitlen(m);
                let k = k.max(0);
                let (q, r) = W::from(m).shl(k).divrem(n);
                self.round(s, &q, e as i64 - f as i64 - k as i64, r != 0, rm)
            }
        }
    }

    pub fn fma(&self, a: Val, b: Val, c: Val, rm: u8) -> (Val, u8) {
        if let (Fin(s, m, e), Fin(t, n, f)) = (a, b) {
            let p = (s != t, W::mul(m, n), e as i64 + f as i64);
            match c {
                Fin(u, k, g) => return self.sum(p, (u, W::from(k), g as i64), rm),
                Zero(_) => return self.round(p.0, &p.1, p.2, false, rm),
                Inf(_) => return (c, 0),
                Nan(..) => return self.nan2(c, c),
            }
        }
        // The product is exact (or invalid): an invalid product decides the result
        // even if the addend is a quiet NaN.
        let (p, st) = self.mul(a, b, rm);
        if st != 0 {
            return (p, st);
        }
        self.add(p, c, rm)
    }

    /// (x rem y with the quotient rounded toward zero, with the quotient rounded to nearest even)
    fn rems(&self, (m, e): (u128, i32), (n, f): (u128, i32)) -> ((u128, i32), (bool, u128, i32)) {
        // Common exponent g; X = m * 2^(e-g), Y = n * 2^(f-g).
        let g = e.min(f);
        if f > e && f - e + bitlen(n) > bitlen(m) + 2 {
            // y > 2x: both quotients are 0.
            return ((m, e), (false, m, e));
        }
        let y = W::from(n).shl(f - g);
        let y2 = y.shl(1);
        // X mod 2Y, by doubling.
        let mut r = W::from(m);
        let reduce = |r: W| {
            // r < 2^k * y2 with small k only when the operands are given directly
            let mut r = r;
            let d = r.bitlen() - y2.bitlen();
            for s in (0..=d.max(0)).rev() {
                let t = y2.shl(s);
                if r.cmp(&t) != Ordering::Less {
                    r = r.sub(&t);
                }
            }
            r
        };
        r = reduce(r);
        if e > g {
            // Multiply by 2^(e-g) modulo 2Y, in steps of up to 128 bits.
            let mut left = e - g;
            if y2.bitlen() <= 126 {
                // square-and-multiply on 2^left mod y2
                let md = y2.u128();
                let mulmod = |a: u128, b: u128| W::mul(a, b).divrem(md).1;
                let mut acc = r.u128();
                let mut base = 2 % md;
                while left > 0 {
                    if left & 1 == 1 {
                        acc = mulmod(acc, base);
                    }
                    base = mulmod(base, base);
                    left >>= 1;
                }
                r = W::from(acc);
            } else {
                while left > 0 {
                    let s = left.min(100);
                    r = reduce(r.shl(s));
                    left -= s;
                }
            }
        }
        // r = X mod 2Y
        let odd = r.cmp(&y) != Ordering::Less; // truncated quotient is odd
        let t = if odd { r.sub(&y) } else { r };
        // nearest: compare 2t with y
        let up = match t.shl(1).cmp(&y) {
            Ordering::Less => false,
            Ordering::Greater => true,
            Ordering::Equal => odd,
        };
        let near = if up { (true, y.sub(&t)) } else { (false, t) };
        // Strip factors of two so that the value fits; both results are representable.
        let fit = |w: W| -> (u128, i32) {
            if w.is_zero() {
                return (0, g);
            }
            let mut k = 0;
            while !w.bit(k) {
                k += 1;
            }
            (w.shr(k).0.u128(), g + k)
        };
        let (n1, n2) = fit(near.1);
        (fit(t), (near.0, n1, n2))
    }

    pub fn fmod(&self, a: Val, b: Val) -> (Val, u8) {
        self.rem_common(a, b, false)
    }
    pub fn ieee_rem(&self, a: Val, b: Val) -> (Val, u8) {
        self.rem_common(a, b, true)
    }
    fn rem_common(&self, a: Val, b: Val, nearest: bool) -> (Val, u8) {
        match (a, b) {
            (Nan(..), _) | (_, Nan(..)) => self.nan2(a, b),
            (Inf(_), _) | (_, Zero(_)) => (self.nan(), INVALID),
            (Zero(_), _) | (_, Inf(_)) => (a, 0),
            (Fin(s, m, e), Fin(_, n, f)) => {
                let (t, r) = self.rems((m, e), (n, f));
                let (neg, m, e) = if nearest { (r.0 != s, r.1, r.2) } else { (s, t.0, t.1) };
                if m == 0 {
                    (Zero(s), 0)
                } else {
                    let (m, e) = self.canon(m, e);
                    (Fin(neg, m, e), 0)
                }
            }
        }
    }

    /// Integer part of |x| rounded in direction rm: (integer, inexact); None if |x| >= 2^127.
    pub fn to_int(&self, v: Val, rm: u8) -> Option<(u128, bool)> {
        match v {
            Fin(s, m, e) => {
                if e >= 0 {
                    if bitlen(m) + e > 128 {
                        return None;
                    }
                    return Some((m << e, false));
                }
                let sh = -e;
                let (n, half, rest) = if sh > 128 {
                    (0, false, true)
                } else {
                    let n = if sh == 128 { 0 } else { m >> sh };
                    (n, m >> (sh - 1) & 1 == 1, m & mask(sh - 1) != 0)
                };
                let up = match rm {
                    NTE => half && (rest || n & 1 == 1),
                    NTA => half,
                    TOPOS => (half || rest) && !s,
                    TONEG => (half || rest) && s,
                    _ => false,
                };
                Some((n + up as u128, half || rest))
            }
            Zero(_) => Some((0, false)),
            _ => None,
        }
    }

    pub fn rint(&self, a: Val, rm: u8) -> (Val, u8) {
        match a {
            Nan(..) => self.nan2(a, a),
            Inf(_) | Zero(_) => (a, 0),
            Fin(s, m, e) => {
                if e >= 0 {
                    return (a, 0);
                }
                let (n, inexact) = self.to_int(Fin(s, m, e), rm).unwrap();
                let st = if inexact { INEXACT } else { 0 };
                if n == 0 {
                    return (Zero(s), st);
                }
                // (exact, except past the largest number of a format of few exponents)
                let (r, over) = self.round(s, &W::from(n), 0, false, rm);
                (r, st | over)
            }
        }
    }

    pub fn is_integer(&self, a: Val) -> bool {
        match a {
            Fin(_, m, e) => e >= 0 || m.trailing_zeros() as i32 >= -e,
            Zero(_) => true,
            _ => false,
        }
    }

    /// The least representable value greater than a (infinities included).
    pub fn next_up(&self, a: Val) -> (Val, u8) {
        match a {
            Nan(s, _) => {
                if self.signaling(a) {
                    (self.nan().with_sign(s), INVALID)
                } else {
                    (a, 0)
                }
            }
            Inf(s) => (if s { self.largest(true) } else { a }, 0),
            Zero(_) => (self.smallest(false), 0),
            Fin(s, m, e) => {
                let (m, e) = self.canon(m, e);
                if s {
                    if m == 1 && e == self.qmin() {
                        return (Zero(true), 0);
                    }
                    let (m, e) = if m == 1 << (self.p - 1) && e > self.qmin() { (mask(self.p), e - 1) } else { (m - 1, e) };
                    (Fin(true, m, e), 0)
                } else {
                    if self.largest(false) == Fin(false, m, e) {
                        return (self.inf(false), 0);
                    }
                    let (m, e) = if m == mask(self.p) { (1 << (self.p - 1), e + 1) } else { (m + 1, e) };
                    (Fin(false, m, e), 0)
                }
            }
        }
    }
    pub fn next_down(&self, a: Val) -> (Val, u8) {
        let (v, s) = self.next_up(a.flip());
        (v.flip(), s)
    }

    pub fn from_int(&self, neg: bool, mag: u128, rm: u8) -> (Val, u8) {
        if mag == 0 {
            return (Zero(false), 0);
        }
        self.round(neg, &W::from(mag), 0, false, rm)
    }

    /// (integer, status, is_exact) of a conversion to an unsigned integer of `width` bits.
    pub fn to_uint(&self, a: Val, width: u32, rm: u8) -> (u128, u8, bool) {
        let max = mask(width as i32);
        let sat = if a.neg() { 0 } else { max };
        match a {
            Nan(..) => (0, INVALID, false),
            Inf(_) => (sat, INVALID, false),
            Zero(s) => (0, 0, !s),
            Fin(s, ..) => match self.to_int(a, rm) {
                Some((n, inexact)) if n <= max && !(s && n > 0) => (n, if inexact { INEXACT } else { 0 }, !inexact),
                _ => (sat, INVALID, false),
            },
        }
    }

    pub fn to_sint(&self, a: Val, width: u32, rm: u8) -> (i128, u8, bool) {
        let max = mask(width as i32 - 1); // also the magnitude of the minimum, minus one
        let min = (-1i128) << (width - 1);
        let sat = if a.neg() { min } else { max as i128 };
        match a {
            Nan(..) => (0, INVALID, false),
            Inf(_) => (sat, INVALID, false),
            Zero(s) => (0, 0, !s),
            Fin(s, ..) => match self.to_int(a, rm) {
                Some((n, inexact)) if n <= max || s && n - 1 <= max => {
                    let v = if s { (n as i128).wrapping_neg() } else { n as i128 };
                    (v, if inexact { INEXACT } else { 0 }, !inexact)
                }
                _ => (sat, INVALID, false),
            },
        }
    }

    /// (value, status, loses_info); the significand of a NaN follows the documented
    /// top-aligned payload rule.
    pub fn convert(&self, to: &Spec, a: Val, rm: u8) -> (Val, u8, bool) {
        match a {
            Nan(s, _) => {
                let inv = if self.signaling(a) { INVALID } else { 0 };
                let Nan(_, mut f) = self.quiet(a) else { unreachable!() };
                let mut lost = false;
                let shift = to.p - self.p;
                if shift > 0 {
                    f <<= shift;
                } else if shift < 0 && !self.nan_only {
                    lost = f & mask(-shift) != 0;
                    f >>= -shift;
                }
                // x87 signaling and pseudo NaNs have no counterpart elsewhere.
                let pseudo = self.x87 && !to.x87 && self.signaling(a);
                let v = Nan(s, to.nan_base() | to.qbit() | (f & to.payload_mask()));
                (v, inv, lost || pseudo || !self.nan_only && to.nan_only)
            }
            Inf(s) => {
                if to.nan_only {
                    (to.nan().with_sign(s), INEXACT, true)
                } else {
                    (a, 0, false)
                }
            }
            Zero(_) => (a, 0, false),
            Fin(s, m, e) => {
                let (v, st) = to.round(s, &W::from(m), e as i64, false, rm);
                (v, st, st != 0)
            }
        }
    }

    pub fn cmp(&self, a: Val, b: Val) -> Option<Ordering> {
        let key = |v: Val| -> Option<(i32, i64, u128)> {
            // sign-and-magnitude key: (sign class, exponent of the leading bit, left-aligned significand)
            Some(match v {
                Nan(..) => return None,
                Zero(_) => (0, 0, 0),
                Inf(s) => (if s { -2 } else { 2 }, 0, 0),
                Fin(s, m, e) => (if s { -1 } else { 1 }, bitlen(m) as i64 + e as i64, m << m.leading_zeros()),
            })
        };
        let (x, y) = (key(a)?, key(b)?);
        Some(x.0.cmp(&y.0).then_with(|| {
            let mag = (x.1, x.2).cmp(&(y.1, y.2));
            if x.0 < 0 {
                mag.reverse()
            } else {
                mag
            }
        }))
    }

    /// floor(log2 |x|)
    pub fn ilogb(&self, a: Val) -> Option<i32> {
        match a {
            Fin(_, m, e) => Some(bitlen(m) + e - 1),
            _ => None,
        }
    }

    pub fn scalbn(&self, a: Val, n: i32, rm: u8) -> Val {
        match a {
            Nan(..) => self.quiet(a),
            Inf(_) | Zero(_) => a,
            Fin(s, m, e) => self.round(s, &W::from(m), e as i64 + n as i64, false, rm).0,
        }
    }

    pub fn frexp(&self, a: Val) -> (Val, i32) {
        match a {
            Nan(..) => (self.quiet(a), i32::MIN),
            Inf(_) => (a, i32::MAX),
            Zero(_) => (a, 0),
            Fin(s, m, e) => {
                let x = bitlen(m) + e;
                let (m, e) = self.canon(m, e - x);
                (Fin(s, m, e), x)
            }
        }
    }

    pub fn inverse(&self, a: Val) -> Option<Val> {
        let Fin(s, m, e) = a else { return None };
        if !m.is_power_of_two() {
            return None;
        }
        let x = bitlen(m) + e - 1;
        let normal = |x: i32| x >= self.emin && x <= self.emax;
        // Denormals (operand or result) are excluded by design.
        if !normal(x) || !normal(-x) {
            return None;
        }
        let (m, e) = self.canon(1, -x);
        Some(Fin(s, m, e))
    }

    pub fn is_denormal(&self, a: Val) -> bool {
        match a {
            Fin(_, m, e) => bitlen(m) + e - 1 < self.emin,
            _ => false,
        }
    }

    /// Canonical bits: what re-encoding the decoded value gives.
    pub fn canon_bits(&self, bits: u128) -> u128 {
        self.encode(self.decode(bits))
    }

    pub fn qnan(&self, payload: Option<u128>) -> Val {
        Nan(false, self.nan_base() | self.qbit() | (payload.unwrap_or(0) & self.payload_mask()))
    }
    pub fn snan(&self, payload: Option<u128>) -> Val {
        let Nan(_, f) = self.qnan(payload) else { unreachable!() };
        let f = f & !(self.qbit() & self.payload_mask());
        if f & self.payload_mask() == 0 {
            Nan(false, f | (self.qbit() & self.payload_mask()) >> 1)
        } else {
            Nan(false, f)
        }
    }

    // ------------------------------------------------------------ rationals
    /// Rounds (-1)^neg * num/den * 2^e (num, den > 0).
    pub fn round_ratio(&self, neg: bool, num: &Big, den: &Big, e: i64, rm: u8) -> (Val, u8) {
        let k = (self.p as i64 + 4 + den.bitlen() - num.bitlen()).max(0);
        let (q, r) = num.shl(k).divrem(den);
        self.round_big(neg, &q, e - k, !r.is_zero(), rm)
    }
    pub fn round_big(&self, neg: bool, m: &Big, e: i64, sticky: bool, rm: u8) -> (Val, u8) {
        let keep = 300;
        let drop = (m.bitlen() - keep).max(0);
        let (q, lost) = m.shr(drop);
        let mut w = W::ZERO;
        w.0[..q.0.len()].copy_from_slice(&q.0);
        self.round(neg, &w, e + drop, sticky || lost, rm)
    }
    /// Rounds digits * 10^exp10.
    pub fn round_decimal(&self, neg: bool, digits: &Big, exp10: i64, rm: u8) -> (Val, u8) {
        if digits.is_zero() {
            return (Zero(neg), 0);
        }
        // Magnitude bounds: 10^(mag-1) <= x < 10^mag, in decimal digits (approximately, generously).
        let bits = digits.bitlen();
        let lo_log2 = bits as f64 - 1.0 + exp10 as f64 * std::f64::consts::LOG2_10;
        if lo_log2 > self.emax as f64 + 10.0 {
            return self.overflow(neg, rm);
        }
        if lo_log2 + 1.0 < self.qmin() as f64 - 10.0 {
            // Below a quarter of the smallest denormal.
            return self.round(neg, &W::from(1), self.qmin() as i64 - 5, false, rm);
        }
        if exp10 >= 0 {
            let n = digits.mul(&Big::pow5(exp10 as u64));
            self.round_big(neg, &n, exp10, false, rm)
        } else {
            self.round_ratio(neg, digits, &Big::pow5((-exp10) as u64), exp10, rm)
        }
    }
}
