//! Structured generators of operands.

use crate::model::{bitlen, mask, Spec, Val, SPECS};
use crate::rng::Rng;
use Val::*;

/// A p-bit significand with its top bit set, with a bias to patterns that make
/// ties, carries and exact results.
pub fn sig(r: &mut Rng, p: i32) -> u128 {
    let top = 1u128 << (p - 1);
    let full = mask(p);
    let x = match r.below(10) {
        0..=2 => r.u128() & full,
        3 => {
            let mut x = 0;
            for _ in 0..1 + r.below(3) {
                x |= 1 << r.below(p as u64);
            }
            x
        }
        4 => {
            let mut x = full;
            for _ in 0..r.below(3) {
                x &= !(1 << r.below(p as u64));
            }
            x
        }
        5 => (r.u128() & full) & !mask(p / 2 + r.range(-1, 2) as i32),
        6 => full & !mask(r.below(p as u64) as i32),
        7 => top | (r.below(8) as u128 & full),
        8 => full - (r.below(8) as u128 & full),
        _ => (r.u128() & full) & !mask(r.below(p as u64) as i32),
    };
    x | top
}

pub fn neg(r: &mut Rng) -> bool {
    r.bool()
}

/// A finite non-zero value with the exponent of the leading bit given.
pub fn with_exp(r: &mut Rng, sp: &Spec, e: i32) -> Val {
    let e = e.clamp(sp.qmin(), sp.emax);
    let p = if e < sp.emin { e - sp.qmin() + 1 } else { sp.p };
    let mut m = sig(r, p);
    if sp.nan_only && e == sp.emax && m == mask(sp.p) {
        m -= 1;
    }
    Fin(neg(r), m, e - p + 1)
}

pub fn exp(r: &mut Rng, sp: &Spec) -> i32 {
    match r.below(10) {
        0..=2 => r.range(sp.qmin() as i64, sp.emax as i64) as i32,
        3 | 4 => r.range(-(sp.p as i64) - 3, sp.p as i64 + 3) as i32,
        5 => r.range(sp.emin as i64 - 2, sp.emin as i64 + sp.p as i64 + 2) as i32,
        6 => r.range(sp.emax as i64 - 3, sp.emax as i64) as i32,
        7 => r.range(sp.emax as i64 - sp.p as i64 - 3, sp.emax as i64) as i32,
        _ => r.range(sp.qmin() as i64, sp.emin as i64) as i32,
    }
}

pub fn fin(r: &mut Rng, sp: &Spec) -> Val {
    let e = exp(r, sp);
    with_exp(r, sp, e)
}

pub fn special(r: &mut Rng, sp: &Spec) -> u128 {
    let s = neg(r);
    let v = match r.below(16) {
        0 | 1 => Zero(s),
        2 | 3 => sp.inf(s),
        4 => sp.nan().with_sign(s),
        5 => sp.qnan(Some(r.u128())).with_sign(s),
        6 => sp.snan(Some(r.u128())).with_sign(s),
        7 => sp.snan(None).with_sign(s),
        8 => sp.largest(s),
        9 => sp.smallest(s),
        10 => sp.smallest_normal(s),
        11 => Fin(s, mask(sp.p - 1), sp.qmin()), // largest denormal
        12 => Fin(s, 1, 0),
        13 => Fin(s, 1, r.pick(&[-1, 1])),
        14 => Fin(s, 1, r.range(sp.qmin() as i64, sp.emax as i64) as i32),
        _ => {
            return if sp.x87 {
                // explicit integer bit: unnormals, pseudo-denormals, pseudo-infinities, pseudo-NaNs
                let e = r.pick(&[0u128, 1, 2, 0x3fff, 0x7ffe, 0x7fff]);
                let f = r.pick(&[0u128, 1, 1 << 62, 1 << 63, 3 << 62, mask(63), mask(64), 0x1234_5678_9abc_def0]);
                (s as u128) << 79 | e << 64 | f
            } else {
                r.u128() & sp.mask()
            };
        }
    };
    sp.encode(v)
}

/// Any encoding, biased to the interesting ones.
pub fn bits(r: &mut Rng, sp: &Spec) -> u128 {
    match r.below(16) {
        0 | 1 => special(r, sp),
        2 => r.u128() & sp.mask(),
        _ => sp.encode(fin(r, sp)),
    }
}

/// Mostly finite.
pub fn fbits(r: &mut Rng, sp: &Spec) -> u128 {
    if r.below(32) == 0 {
        special(r, sp)
    } else {
        sp.encode(fin(r, sp))
    }
}

/// Moves a finite encoding by a few units in the last place (saturating at the ends).
pub fn nudge(sp: &Spec, bits: u128, d: i64) -> u128 {
    let s = bits & sp.signbit();
    let m = (bits & !sp.signbit()) as i128 + d as i128;
    let max = (sp.encode(sp.largest(false))) as i128;
    let m = m.clamp(0, max) as u128;
    let out = s | m;
    if sp.x87 {
        // keep the explicit integer bit coherent
        return sp.canon_bits(match sp.decode(out) {
            Nan(..) => bits,
            _ => out,
        });
    }
    out
}

/// The second operand of an addition-like operation.
pub fn related(r: &mut Rng, sp: &Spec, a: u128) -> u128 {
    let Fin(_, m, e) = sp.decode(a) else { return bits(r, sp) };
    let top = bitlen(m) + e - 1;
    match r.below(16) {
        0..=2 => bits(r, sp),
        3 | 4 => nudge(sp, a, r.range(-4, 4)),
        5 | 6 => nudge(sp, a, r.range(-4, 4)) ^ sp.signbit(),
        7..=11 => {
            let d = r.range(-(sp.p as i64) - 4, sp.p as i64 + 4) as i32;
            sp.encode(with_exp(r, sp, top + d))
        }
        12 => {
            // exactly or nearly half a unit in the last place of a
            let lsb = e.max(sp.qmin()) + r.range(-2, 1) as i32;
            let v = match with_exp(r, sp, lsb) {
                Fin(s, m, e) if r.bool() => Fin(s, 1 << (bitlen(m) - 1), e),
                v => v,
            };
            sp.encode(v)
        }
        13 => {
            let d = r.range(-2, 2) as i32;
            sp.encode(with_exp(r, sp, top + d))
        }
        14 => special(r, sp),
        _ => sp.encode(fin(r, sp)),
    }
}

/// Operand such that the product (div = false) or quotient (div = true) with `a`
/// has its leading bit near an interesting exponent.
pub fn scaled(r: &mut Rng, sp: &Spec, a: u128, div: bool) -> u128 {
    let Fin(_, m, e) = sp.decode(a) else { return bits(r, sp) };
    let top = bitlen(m) + e - 1;
    let target = match r.below(6) {
        0 => r.range(sp.qmin() as i64 - 3, sp.emin as i64 + 2) as i32,
        1 => r.range(sp.emin as i64 - 2, sp.emin as i64 + 1) as i32,
        2 => r.range(sp.qmin() as i64 - 2, sp.qmin() as i64 + 2) as i32,
        3 => r.range(sp.emax as i64 - 2, sp.emax as i64 + 2) as i32,
        4 => 0,
        _ => exp(r, sp),
    };
    let eb = if div { top - target } else { target - top };
    if eb < sp.qmin() || eb > sp.emax {
        return fbits(r, sp);
    }
    sp.encode(with_exp(r, sp, eb))
}

/// Every built-in format gets a fair share; the custom ones a smaller one.
pub fn fmt(r: &mut Rng) -> u8 {
    r.pick(&[0u8, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 6, 7, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 17, 18])
}
pub fn rm(r: &mut Rng) -> u8 {
    r.below(5) as u8
}
pub fn sp(f: u8) -> &'static Spec {
    &SPECS[f as usize]
}

/// Formats of at most 9 bits: their operand pairs can be enumerated.
pub const TINY: [u8; 9] = [5, 6, 8, 9, 10, 14, 17, 19, 20];
