//! P01..P07: arithmetic of the IEEE-style formats against the exact model.

use super::common::*;

// ------------------------------------------------------------------ P01 add/sub
fn gen_add(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = gen::bits(r, sp);
    let b = gen::related(r, sp, a);
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    Case { op: r.pick(&[ADD, SUB]), f, rm: gen::rm(r), a, b, ..Case::default() }
}

fn p01(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[ADD, SUB], f, 5)).collect();
    v.push(phase("structured pairs", 30_000_000 * e, |_, r| gen_add(r)));
    v
}

// --------------------------------------------------------------------- P02 mul
fn gen_mul(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = gen::bits(r, sp);
    let b = match r.below(8) {
        0 | 1 => gen::bits(r, sp),
        2 => {
            // few significant bits on both sides: exact products and ties
            let x = few_bits(r, sp);
            return Case { op: MUL, f, rm: gen::rm(r), a: few_bits(r, sp), b: x, ..Case::default() };
        }
        _ => gen::scaled(r, sp, a, false),
    };
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    Case { op: MUL, f, rm: gen::rm(r), a, b, ..Case::default() }
}

/// A value of up to (p+2)/2 significant bits.
pub fn few_bits(r: &mut Rng, sp: &Spec) -> u128 {
    let w = r.range(1, ((sp.p + 3) / 2).min(sp.p) as i64) as i32;
    let m = gen::sig(r, w);
    let e = match r.below(4) {
        0 => r.range(sp.emin as i64 / 2 - sp.p as i64, sp.emin as i64 / 2 + 4) as i32,
        1 => r.range(sp.emax as i64 / 2 - 3, sp.emax as i64 / 2 + 1) as i32,
        2 => r.range(sp.emin as i64, sp.emax as i64) as i32,
        _ => r.range(-4, 4) as i32,
    };
    let e = e.clamp(sp.emin, sp.emax - 1);
    // leading bit at exponent e
    let (m, e) = (m, e - w + 1);
    let (m, e) = sp.canon(m, e.max(sp.qmin()));
    sp.encode(Fin(gen::neg(r), m, e))
}

fn p02(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[MUL], f, 5)).collect();
    v.push(phase("structured pairs", 30_000_000 * e, |_, r| gen_mul(r)));
    v
}

// --------------------------------------------------------------------- P03 div
fn gen_div(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let rm = gen::rm(r);
    match r.below(8) {
        0 => {
            // exact or nearly exact quotient: a = q * b, nudged
            let (q, b) = (few_bits(r, sp), few_bits(r, sp));
            let a = sp.encode(sp.mul(sp.decode(q), sp.decode(b), NTE).0);
            let a = if sp.decode(a).is_fin() && r.bool() { gen::nudge(sp, a, r.range(-1, 1)) } else { a };
            Case { op: DIV, f, rm, a, b, ..Case::default() }
        }
        1 => {
            // short divisor (a few bits to a machine word), long dividend
            let w = r.range(1, 66.min(sp.p as i64)) as i32;
            let b = sp.encode(Fin(gen::neg(r), gen::sig(r, w), 0.max(sp.qmin())));
            let b = if r.bool() { b } else { gen::nudge(sp, b, r.range(-2, 2)) };
            let a = gen::scaled(r, sp, b, false);
            Case { op: DIV, f, rm, a, b, ..Case::default() }
        }
        2 => {
            let a = gen::bits(r, sp);
            Case { op: DIV, f, rm, a, b: gen::bits(r, sp), ..Case::default() }
        }
        _ => {
            let a = gen::bits(r, sp);
            let b = gen::scaled(r, sp, a, true);
            Case { op: DIV, f, rm, a, b, ..Case::default() }
        }
    }
}

fn p03(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[DIV], f, 5)).collect();
    v.push(phase("structured pairs", 14_000_000 * e, |_, r| gen_div(r)));
    v
}

// --------------------------------------------------------------------- P04 fma
pub fn gen_fma(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = if r.below(4) == 0 { few_bits(r, sp) } else { gen::fbits(r, sp) };
    let b = match r.below(4) {
        0 => gen::bits(r, sp),
        1 => few_bits(r, sp),
        _ => gen::scaled(r, sp, a, false),
    };
    let (va, vb) = (sp.decode(a), sp.decode(b));
    let c = if let (Fin(s, m, e), Fin(t, n, g)) = (va, vb) {
        let top = bitlen(m) + e + bitlen(n) + g - 1;
        match r.below(10) {
            0 | 1 => {
                // close to the negated product
                let (p, _) = sp.mul(va, vb, gen::rm(r));
                let p = sp.encode(p);
                if sp.decode(p).is_fin() {
                    gen::nudge(sp, p, r.range(-3, 3)) ^ sp.signbit()
                } else {
                    gen::bits(r, sp)
                }
            }
            2 => {
                // same sign, close to the product
                let (p, _) = sp.mul(va, vb, gen::rm(r));
                let p = sp.encode(p);
                if sp.decode(p).is_fin() {
                    gen::nudge(sp, p, r.range(-3, 3))
                } else {
                    gen::bits(r, sp)
                }
            }
            3..=6 => {
                let d = r.range(-2 * sp.p as i64 - 5, 2 * sp.p as i64 + 5) as i32;
                sp.encode(gen::with_exp(r, sp, top + d))
            }
            7 => {
                // around the rounding position of the product: ties with a sticky addend
                let d = r.range(-(sp.p as i64) - 3, -(sp.p as i64) + 2) as i32;
                sp.encode(gen::with_exp(r, sp, top + d))
            }
            8 => {
                let _ = (s, t);
                sp.encode(Zero(r.bool()))
            }
            _ => gen::bits(r, sp),
        }
    } else {
        gen::bits(r, sp)
    };
    Case { op: FMA, f, rm: gen::rm(r), a, b, c, ..Case::default() }
}

fn p04(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    // Every operand triple of the 6-bit format, in every mode.
    v.push(full_phase("all triples of Custom6E3", (1 << 18) * 5, |i, _| {
        let t = i / 5;
        Case { op: FMA, f: 8, rm: (i % 5) as u8, a: (t & 63) as u128, b: (t >> 6 & 63) as u128, c: (t >> 12) as u128, ..Case::default() }
    }));
    if e > 1 {
        for f in [5u8, 6, 9] {
            v.push(full_phase(format!("all triples of {}", gen::sp(f).name), (1 << 24) * 5, move |i, _| {
                let t = i / 5;
                Case { op: FMA, f, rm: (i % 5) as u8, a: (t & 255) as u128, b: (t >> 8 & 255) as u128, c: (t >> 16) as u128, ..Case::default() }
            }));
        }
    }
    v.push(phase("random triples of the 8-bit formats", 6_000_000, |_, r| {
        let f = r.pick(&[5u8, 6, 9]);
        Case { op: FMA, f, rm: gen::rm(r), a: r.below(256) as u128, b: r.below(256) as u128, c: r.below(256) as u128, ..Case::default() }
    }));
    v.push(phase("structured triples", 24_000_000 * e, |_, r| gen_fma(r)));
    v
}

// ---------------------------------------------------------------- P05 remainders
pub fn gen_rem(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let b = gen::bits(r, sp);
    let a = match (sp.decode(b), r.below(8)) {
        (Fin(_, m, e), 0..=3) => {
            let d = r.range(-3, 2 * sp.p as i64 + 6) as i32;
            sp.encode(gen::with_exp(r, sp, bitlen(m) + e - 1 + d))
        }
        (Fin(_, m, e), 4) => {
            // a multiple (or half-multiple) of b, nudged: ties of the nearest quotient
            let k = r.range(1, 40) as u128;
            let tz = m.trailing_zeros() as i32;
            let v = sp.round(gen::neg(r), &crate::wide::W::mul(m >> tz, k), (e + tz - 1) as i64, false, TOZERO).0;
            let x = sp.encode(v);
            if r.bool() && v.is_fin() {
                gen::nudge(sp, x, r.range(-1, 1))
            } else {
                x
            }
        }
        (Fin(..), 5) => gen::nudge(sp, b, r.range(-3, 3)) ^ if r.bool() { sp.signbit() } else { 0 },
        _ => gen::bits(r, sp),
    };
    Case { op: r.pick(&[FMOD, REM]), f, a, b, ..Case::default() }
}

fn check_rem(c: &Case) -> Res {
    let r = check_op(c);
    if let (Res::Ok(k, n), FMOD) = (&r, c.op) {
        // the `%` operator is the same function
        let o = apf_ops::f(c.f as usize);
        let (x, y) = ((o.oper)(4, c.a, c.b), (o.c_fmod)(c.a, c.b));
        if x != y {
            return Res::Fail(format!("operator %: {}", mismatch(c.f, x, y)));
        }
        return Res::Ok(*k, *n);
    }
    r
}

fn p05(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[FMOD, REM], f, 1)).collect();
    v.push(slow_phase("structured pairs", 2_000_000 * e, |_, r| gen_rem(r)));
    v
}

// ------------------------------------------------------- P06 round to integral
fn gen_rint(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = match r.below(4) {
        0 => gen::bits(r, sp),
        1 => {
            // half-integers and their neighbours
            let w = r.range(1, sp.p as i64) as i32;
            let m = gen::sig(r, w) | (r.bool() as u128);
            let e = r.pick(&[-1, -1, -2, 0]);
            let (m, e) = if e < sp.qmin() { (1, sp.qmin()) } else { (m, e) };
            let b = sp.round(gen::neg(r), &crate::wide::W::from(m), e as i64, false, NTE).0;
            if b.is_fin() {
                gen::nudge(sp, sp.encode(b), r.range(-1, 1))
            } else {
                sp.encode(b)
            }
        }
        _ => {
            let e = r.range(-4, sp.p as i64 + 2) as i32;
            sp.encode(gen::with_exp(r, sp, e))
        }
    };
    Case { op: RINT, f, rm: gen::rm(r), a, ..Case::default() }
}

fn check_rint(c: &Case) -> Res {
    let r = check_op(c);
    if let Res::Ok(..) = r {
        let sp = gen::sp(c.f);
        let o = apf_ops::f(c.f as usize);
        let (got, want) = ((o.is_integer)(c.a), sp.is_integer(sp.decode(c.a)));
        if got != want {
            return Res::Fail(format!("is_integer({}) = {}", show(c.f, c.a), got));
        }
        // Rounding an integral value again changes nothing.
        let once = (o.rint)(c.a, c.rm).0;
        if sp.decode(once).is_fin() || once & !sp.signbit() == 0 {
            for rm in 0..5 {
                let t = (o.rint)(once, rm);
                if t != (once, 0) {
                    return Res::Fail(format!("not idempotent under {}: {}", RM_NAMES[rm as usize], mismatch(c.f, t, (once, 0))));
                }
            }
        }
    }
    r
}

fn p06(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = [0u8, 4, 5, 6, 8, 9, 10, 14, 16, 17, 19, 20].iter().map(|&f| unary_phase(&[RINT], f, 5)).collect();
    v.push(phase("structured values", 8_000_000 * e, |_, r| gen_rint(r)));
    v
}

// --------------------------------------------------------------------- P07 next
fn gen_next(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = match r.below(4) {
        0 => {
            // binade boundaries and the ends of the range
            let e = gen::exp(r, sp);
            let b = match gen::with_exp(r, sp, e) {
                Fin(s, m, e) => Fin(s, 1 << (bitlen(m) - 1), e),
                v => v,
            };
            gen::nudge(sp, sp.encode(b), r.range(-2, 2))
        }
        1 => {
            let b = sp.encode(r.pick(&[sp.largest(false), sp.smallest(false), sp.smallest_normal(false)]));
            let b = gen::nudge(sp, b, r.range(-3, 3));
            b ^ if r.bool() { sp.signbit() } else { 0 }
        }
        _ => gen::bits(r, sp),
    };
    Case { op: r.pick(&[UP, DOWN]), f, a, ..Case::default() }
}

fn check_next(c: &Case) -> Res {
    let r = check_op(c);
    if let Res::Ok(..) = r {
        // next_down undoes next_up strictly inside of the finite range, and the result is
        // strictly on the right side.
        let sp = gen::sp(c.f);
        let o = apf_ops::f(c.f as usize);
        if sp.decode(c.a).is_fin() {
            let x = lib(c).0;
            let rel = (o.rel)(x, c.a);
            let good = sp.decode(x).is_nan() || if c.op == UP { rel.gt } else { rel.lt };
            if !good {
                return Res::Fail(format!("{} does not lie strictly beyond the operand: {:?}", show(c.f, x), rel));
            }
            if sp.decode(x).is_fin() {
                let back = if c.op == UP { (o.next_down)(x) } else { (o.next_up)(x) };
                if back != (sp.canon_bits(c.a), 0) {
                    return Res::Fail(format!("there and back: {}", mismatch(c.f, back, (sp.canon_bits(c.a), 0))));
                }
            }
        }
    }
    r
}

fn p07(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = [0u8, 4, 5, 6, 8, 9, 10, 11, 14, 16, 17, 19, 20].iter().map(|&f| unary_phase(&[UP, DOWN], f, 1)).collect();
    v.push(phase("structured values", 8_000_000 * e, |_, r| gen_next(r)));
    v
}

const OPERAND_RULE: &str = "Cases: formats (8 built-in, 6 user-defined), operands built from edge-biased exponents and significands and related to each other (neighbours, negated neighbours, exponent gaps around the precision, results steered to the overflow/underflow/tie boundaries), all rounding modes; every operand combination of the tiny formats is enumerated. Non-trivial: every operand is finite and non-zero, so the result is computed and rounded rather than looked up.";

pub const PROPS: &[Prop] = &[
    Prop { id: "P01", title: "add and subtract are correctly rounded", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p01, check: check_op, describe },
    Prop { id: "P02", title: "multiply is correctly rounded", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p02, check: check_op, describe },
    Prop { id: "P03", title: "divide is correctly rounded", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p03, check: check_op, describe },
    Prop { id: "P04", title: "fused multiply-add is correctly rounded", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p04, check: check_op, describe },
    Prop { id: "P05", title: "remainders are exact", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p05, check: check_rem, describe },
    Prop { id: "P06", title: "round to integral", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p06, check: check_rint, describe },
    Prop { id: "P07", title: "next up / next down", rule: OPERAND_RULE, classes: RESULT_CLASSES, phases: p07, check: check_next, describe },
];
