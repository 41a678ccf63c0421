//! P08..P12, P18..P21: order, encodings, integer and float conversions, scaling,
//! NaN rules, inverses, signs and derived methods.

use super::arith::few_bits;
use super::common::*;
use crate::wide::W;

// ------------------------------------------------------------- P08 comparisons
fn gen_cmp(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = gen::bits(r, sp);
    let b = match r.below(8) {
        0 => a,
        1 => a ^ sp.signbit(),
        2 => gen::special(r, sp),
        3..=5 => gen::nudge(sp, a, r.range(-2, 2)) ^ if r.below(4) == 0 { sp.signbit() } else { 0 },
        _ => gen::related(r, sp, a),
    };
    Case { f, a, b, ..Case::default() }
}

const CMP_CLASSES: &[&str] = &["unordered", "less", "equal", "greater"];

fn desc_ab(c: &Case) -> String {
    format!("{} vs {}", show(c.f, c.a), show(c.f, c.b))
}

fn check_cmp(c: &Case) -> Res {
    if !valid(&Case { op: ADD, ..c.clone() }) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let (a, b) = (sp.decode(c.a), sp.decode(c.b));
    let want = sp.cmp(a, b);
    let got = (o.rel)(c.a, c.b);
    let w = apf_ops::Rel {
        partial: want,
        eq: want == Some(Ordering::Equal),
        ne: want != Some(Ordering::Equal),
        lt: want == Some(Ordering::Less),
        le: matches!(want, Some(Ordering::Less | Ordering::Equal)),
        gt: want == Some(Ordering::Greater),
        ge: matches!(want, Some(Ordering::Greater | Ordering::Equal)),
    };
    if got != w {
        return Res::Fail(format!("comparison: got {:?}, expected {:?}", got, w));
    }
    let (ca, cb) = (sp.canon_bits(c.a), sp.canon_bits(c.b));
    if (o.bitwise_eq)(c.a, c.b) != (ca == cb) {
        return Res::Fail(format!("bitwise_eq is {}, expected {}", ca != cb, ca == cb));
    }
    if a.is_fin() && b.is_fin() {
        let want = sp.cmp(a.with_sign(false), b.with_sign(false)).unwrap();
        let got = (o.cmp_abs)(c.a, c.b);
        if got != want {
            return Res::Fail(format!("cmp_abs_normal: got {:?}, expected {:?}", got, want));
        }
    }
    let bothzero = matches!((a, b), (Zero(_), Zero(_)));
    for (k, name) in ["min", "max", "minimum", "maximum"].iter().enumerate() {
        let got = (o.minmax)(k as u8, c.a, c.b);
        let ok: &[u128] = match (a.is_nan(), b.is_nan(), k) {
            // minNum/maxNum: a number wins over a NaN; minimum/maximum: the NaN wins
            (true, true, _) => &[ca, cb],
            (true, false, 0 | 1) | (false, true, 2 | 3) => &[cb],
            (false, true, 0 | 1) | (true, false, 2 | 3) => &[ca],
            _ => {
                let less = if k % 2 == 0 { Ordering::Less } else { Ordering::Greater };
                if bothzero && k < 2 {
                    &[ca, cb]
                } else if bothzero {
                    // minimum: -0 < +0
                    if a.neg() == (k == 2) {
                        &[ca]
                    } else {
                        &[cb]
                    }
                } else if want == Some(less) {
                    &[ca]
                } else {
                    &[cb]
                }
            }
        };
        if !ok.contains(&got) {
            return Res::Fail(format!("{}: got {}, expected {}", name, show(c.f, got), show(c.f, ok[0])));
        }
    }
    let k = match want {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    };
    Res::Ok(k, a.is_fin() && b.is_fin())
}

fn p08(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[0], f, 1)).collect();
    v.push(phase("structured pairs", 20_000_000 * e, |_, r| gen_cmp(r)));
    v
}

// -------------------------------------------------- P09 encodings and predicates
const ENC_CLASSES: &[&str] = &["normal", "denormal", "zero", "infinity", "quiet NaN", "signaling NaN", "non-canonical", "constants", "NaN constructors"];

fn gen_enc(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = match r.below(8) {
        0 => gen::special(r, sp),
        1 => r.u128() & sp.mask(),
        2 if sp.x87 => {
            let e = r.pick(&[0u128, 0, 1, 2, 0x3fff, 0x7ffd, 0x7ffe, 0x7fff, 0x7fff]);
            let e = if r.below(3) == 0 { r.below(0x8000) as u128 } else { e };
            (r.bool() as u128) << 79 | e << 64 | (r.u64() as u128) >> r.below(64) << r.below(8) & mask(64)
        }
        2 => {
            // exponent all ones or all zeros, sparse fraction
            let e = r.bool();
            let ex = if e { mask(sp.expbits()) } else { 0 };
            let fr = gen::sig(r, sp.fracbits()) >> r.below(sp.fracbits() as u64);
            (r.bool() as u128) << (sp.bits - 1) | ex << sp.fracbits() | fr
        }
        3 => return Case { op: r.pick(&[2, 3]), f, n: r.bool() as i64, b: if r.bool() { r.u128() } else { r.u128() >> r.below(128) }, ..Case::default() },
        _ => gen::bits(r, sp),
    };
    Case { f, a, ..Case::default() }
}

fn desc_enc(c: &Case) -> String {
    match c.op {
        0 => format!("encoding and class of {}", show(c.f, c.a)),
        1 => format!("constants of {}", apf_ops::NAMES[c.f as usize]),
        k => format!("{}::{}({:?})", apf_ops::NAMES[c.f as usize], if k == 2 { "qnan" } else { "snan" }, (c.n != 0).then_some(c.b)),
    }
}

fn check_enc(c: &Case) -> Res {
    if !valid(&Case { op: RINT, ..c.clone() }) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    if c.op == 1 {
        let e = |v| sp.encode(v);
        let want = apf_ops::Consts {
            bits: sp.bits as usize,
            precision: sp.p as usize,
            max_exp: sp.emax,
            min_exp: sp.emin,
            zero: 0,
            default: 0,
            infinity: e(sp.inf(false)),
            nan: e(sp.nan()),
            smallest: e(sp.smallest(false)),
            largest: e(sp.largest(false)),
            smallest_normalized: e(sp.smallest_normal(false)),
            unlike_decoded: false,
        };
        let got = (o.consts)();
        if got != want {
            return Res::Fail(format!("got {:?}, expected {:?}", got, want));
        }
        return Res::Ok(7, true);
    }
    if c.op >= 2 {
        let pl = (c.n != 0).then_some(c.b);
        let (got, want) = if c.op == 2 { ((o.qnan)(pl), sp.qnan(pl)) } else { ((o.snan)(pl), sp.snan(pl)) };
        let want = sp.encode(want);
        if got != want {
            return Res::Fail(format!("got {}, expected {}", show(c.f, got), show(c.f, want)));
        }
        return Res::Ok(8, true);
    }
    let v = sp.decode(c.a);
    let canon = sp.encode(v);
    let got = (o.rt)(c.a);
    if got != canon {
        return Res::Fail(format!("from_bits/to_bits: got {:#x}, expected {:#x}", got, canon));
    }
    let (nan, inf, zero, fin) = (v.is_nan(), matches!(v, Inf(_)), matches!(v, Zero(_)), v.is_fin());
    let den = sp.is_denormal(v);
    let want = apf_ops::Class {
        cat: v.cat(),
        negative: v.neg(),
        normal: fin && !den,
        finite: fin || zero,
        zero,
        denormal: den,
        infinite: inf,
        nan,
        signaling: sp.signaling(v),
        non_zero: !zero,
        finite_non_zero: fin,
        pos_zero: zero && !v.neg(),
        neg_zero: zero && v.neg(),
        pos_inf: inf && !v.neg(),
        neg_inf: inf && v.neg(),
        smallest: canon & !sp.signbit() == sp.encode(sp.smallest(false)),
        smallest_normalized: canon & !sp.signbit() == sp.encode(sp.smallest_normal(false)),
        largest: canon & !sp.signbit() == sp.encode(sp.largest(false)),
    };
    let got = (o.class)(c.a);
    if got != want {
        return Res::Fail(format!("classification: got {:?}, expected {:?}", got, want));
    }
    let k = if canon != c.a {
        6
    } else {
        match v {
            Nan(..) if want.signaling => 5,
            Nan(..) => 4,
            Inf(_) => 3,
            Zero(_) => 2,
            Fin(..) if den => 1,
            Fin(..) => 0,
        }
    };
    Res::Ok(k, true)
}

fn all_values(f: u8) -> Phase {
    full_phase(format!("all encodings of {}", gen::sp(f).name), 1u64 << gen::sp(f).bits, move |i, _| Case { f, a: i as u128, ..Case::default() })
}

fn p09(e: u64) -> Vec<Phase> {
    let mut v = vec![full_phase("constants of every format", SPECS.len() as u64, |i, _| Case { op: 1, f: i as u8, ..Case::default() })];
    v.extend([0u8, 4, 5, 6, 8, 9, 10, 11, 14, 16, 17, 19, 20].iter().map(|&f| all_values(f)));
    if e > 4 {
        v.push(all_values(1));
    }
    v.push(phase("structured encodings", 12_000_000 * e, |_, r| gen_enc(r)));
    v
}

// ---------------------------------------------------------- P10 integer to float
/// An integer of up to 128 bits: powers of two and their neighbours, ties at the
/// rounding position of the precision, all-ones patterns, uniform lengths.
pub fn int(r: &mut Rng, p: i32) -> u128 {
    let w = r.range(1, 128) as i32;
    match r.below(8) {
        0 => r.u128() & mask(w),
        1 => (1u128 << (w - 1)).wrapping_add(r.range(-3, 3) as u128),
        2 => r.below(300) as u128,
        3 => u128::MAX - r.below(8) as u128,
        4 => (1u128 << 127).wrapping_add(r.range(-4, 4) as u128),
        _ => {
            // p significant bits, then a chosen tail
            let s = gen::sig(r, p.min(128));
            let room = 128 - p;
            if room <= 0 {
                return s;
            }
            let t = r.range(0, room as i64) as i32;
            let tail = if t == 0 {
                0
            } else {
                match r.below(5) {
                    0 => 1 << (t - 1),
                    1 => (1u128 << (t - 1)).wrapping_sub(1),
                    2 => (1 << (t - 1)) | (r.bool() as u128),
                    3 => r.u128() & mask(t),
                    _ => mask(t) - r.below(2) as u128,
                }
            };
            s.checked_shl(t as u32).unwrap_or(0) | (tail & mask(t))
        }
    }
}

fn gen_from(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = int(r, sp.p);
    if r.bool() {
        Case { op: FROMU, f, rm: gen::rm(r), a, ..Case::default() }
    } else {
        let a = if r.bool() { a } else { a.wrapping_neg() };
        Case { op: FROMI, f, rm: gen::rm(r), a, ..Case::default() }
    }
}

fn check_from(c: &Case) -> Res {
    if c.op != FROMU && c.op != FROMI {
        return Res::Skip;
    }
    let r = check_op(c);
    if let (Res::Ok(..), NTE) = (&r, c.rm) {
        let o = apf_ops::f(c.f as usize);
        let got = if c.op == FROMU { (o.from_u_default)(c.a) } else { (o.from_i_default)(c.a as i128) };
        let want = lib(c);
        if got != want {
            return Res::Fail(format!("default rounding: {}", mismatch(c.f, got, want)));
        }
    }
    r
}

/// Number of formats.
const NF: u64 = SPECS.len() as u64;

fn p10(e: u64) -> Vec<Phase> {
    vec![
        full_phase("integers -70000..70000 in every format and mode", 140_000 * NF * 5, |i, _| {
            let (k, rest) = (i % 140_000, i / 140_000);
            Case { op: FROMI, f: (rest % NF) as u8, rm: (rest / NF) as u8, a: (k as i128 - 70_000) as u128, ..Case::default() }
        }),
        phase("structured integers", 20_000_000 * e, |_, r| gen_from(r)),
    ]
}

// ---------------------------------------------------------- P11 float to integer
const TOINT_CLASSES: &[&str] = &["exact", "inexact", "saturated or invalid", "negative zero"];

fn gen_to(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let width = match r.below(4) {
        0 => r.pick(&[1i64, 2, 7, 8, 16, 31, 32, 63, 64, 65, 127, 128]),
        _ => r.range(1, 128),
    };
    let a = match r.below(8) {
        0 => gen::bits(r, sp),
        1..=3 => {
            // around the limits of the integer type, with a fraction where it fits
            let w = width + r.range(-2, 1);
            let x = if w > 0 && w < 128 { 1u128 << w } else { 1 };
            let (m, e) = match r.below(4) {
                0 => (x, 0),
                1 => (x, 0),
                2 => (x.wrapping_mul(4).wrapping_sub(1 + r.below(4) as u128).max(1), -2),
                _ => (x.wrapping_mul(2).wrapping_add(r.below(3) as u128).max(1), -1),
            };
            let v = sp.round(gen::neg(r), &W::from(m), e, false, gen::rm(r)).0;
            let b = sp.encode(v);
            if v.is_fin() && r.bool() {
                gen::nudge(sp, b, r.range(-2, 2))
            } else {
                b
            }
        }
        4 => {
            let w = r.range(1, sp.p as i64) as i32;
            let m = gen::sig(r, w);
            let v = sp.round(gen::neg(r), &W::from(m), r.range(-3, 0), false, NTE).0;
            sp.encode(v)
        }
        _ => {
            let e = r.range(-3, width + 1) as i32;
            sp.encode(gen::with_exp(r, sp, e))
        }
    };
    Case { op: r.below(2) as u8, f, rm: gen::rm(r), a, n: width, k: r.below(2) as i64, ..Case::default() }
}

fn desc_to(c: &Case) -> String {
    format!("{} to {}{} {}", show(c.f, c.a), if c.op == 0 { "u" } else { "i" }, c.n, RM_NAMES[c.rm as usize % 5])
}

fn check_to(c: &Case) -> Res {
    if !valid(&Case { op: RINT, ..c.clone() }) || c.n < 1 || c.n > 128 || c.op > 1 {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let v = sp.decode(c.a);
    let w = c.n as usize;
    let (got, want) = if c.op == 0 {
        let g = (o.to_u)(c.a, w, c.rm, c.k & 1 == 1);
        (g, sp.to_uint(v, w as u32, c.rm))
    } else {
        let g = (o.to_i)(c.a, w, c.rm, c.k & 1 == 1);
        let t = sp.to_sint(v, w as u32, c.rm);
        ((g.0 as u128, g.1, g.2), (t.0 as u128, t.1, t.2))
    };
    if got != want {
        let f = |x: (u128, u8, bool)| {
            format!("{} (status {}, exact: {})", if c.op == 0 { x.0.to_string() } else { (x.0 as i128).to_string() }, status_str(x.1), x.2)
        };
        return Res::Fail(format!("got {}, expected {}", f(got), f(want)));
    }
    if c.rm == TOZERO {
        let g = if c.op == 0 {
            (o.to_u_default)(c.a, w)
        } else {
            let g = (o.to_i_default)(c.a, w);
            (g.0 as u128, g.1)
        };
        if g != (want.0, want.1) {
            return Res::Fail(format!("default (truncating) conversion: got {} status {}", g.0 as i128, status_str(g.1)));
        }
    }
    let k = match (want.1, v) {
        (0, Zero(true)) => 3,
        (0, _) => 0,
        (INEXACT, _) => 1,
        _ => 2,
    };
    Res::Ok(k, v.is_fin())
}

fn p11(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for f in gen::TINY {
        let n = 1u64 << gen::sp(f).bits;
        v.push(full_phase(format!("all of {} to widths 1..=20 in every mode", gen::sp(f).name), n * 20 * 10, move |i, _| {
            let (a, i) = (i % n, i / n);
            Case { op: (i % 2) as u8, f, rm: (i / 2 % 5) as u8, a: a as u128, n: 1 + (i / 10) as i64, k: (a & 1) as i64, ..Case::default() }
        }));
    }
    v.push(phase("structured values and widths", 20_000_000 * e, |_, r| gen_to(r)));
    v
}

// ------------------------------------------------------------ P12 float to float
fn gen_conv(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let g = gen::fmt(r);
    let (s, t) = (gen::sp(f), gen::sp(g));
    let a = match r.below(8) {
        0 => gen::bits(r, s),
        1 => gen::special(r, s),
        2..=4 => {
            // near the rounding positions and the range limits of the target
            let e = gen::exp(r, t);
            let x = match r.below(4) {
                0 => t.encode(t.largest(false)),
                1 => t.encode(r.pick(&[t.smallest(false), t.smallest_normal(false)])),
                _ => t.encode(gen::with_exp(r, t, e)),
            };
            match t.decode(x) {
                Fin(_, m, e) => {
                    // midpoint between two neighbours of the target, or the value itself
                    let (m, e) = match r.below(3) {
                        0 => (W::from(m), e as i64),
                        _ => (W::from(m).shl(1).add(&W::from(1)), e as i64 - 1),
                    };
                    let v = s.round(gen::neg(r), &m, e, false, NTE).0;
                    let b = s.encode(v);
                    if v.is_fin() && r.bool() {
                        gen::nudge(s, b, r.range(-1, 1))
                    } else {
                        b
                    }
                }
                _ => x & s.mask(),
            }
        }
        _ => {
            let e = gen::exp(r, t);
            s.encode(gen::with_exp(r, s, e))
        }
    };
    Case { op: CONV, f, g, rm: gen::rm(r), a, k: r.below(2) as i64, ..Case::default() }
}

/// x87 encodings that are neither NaN nor numbers keep their significand when converted
/// to x87 itself: the canonical payload of such a value is not specified.
fn x87_pseudo(c: &Case) -> bool {
    let s = gen::sp(c.f);
    s.x87 && gen::sp(c.g).x87 && s.decode(c.a).is_nan() && c.a >> 63 & 1 == 0
}

fn check_conv(c: &Case) -> Res {
    let c = &Case { op: CONV, ..c.clone() };
    if !valid(c) || x87_pseudo(c) {
        return Res::Skip;
    }
    let (s, t) = (gen::sp(c.f), gen::sp(c.g));
    let (v, st, lost) = s.convert(t, s.decode(c.a), c.rm);
    let want = (t.encode(v), st, lost);
    let got = apf_ops::conv(c.f as usize, c.g as usize)(c.a, c.rm, c.k & 1 == 1);
    if got != want {
        return Res::Fail(format!(
            "{}; loses_info {}, expected {}",
            mismatch(c.g, (got.0, got.1), (want.0, want.1)),
            got.2,
            lost
        ));
    }
    if c.rm == NTE {
        let d = apf_ops::conv_default(c.f as usize, c.g as usize)(c.a);
        if d != want {
            return Res::Fail(format!("default rounding: {}", mismatch(c.g, (d.0, d.1), (want.0, want.1))));
        }
    }
    if !lost && s.decode(c.a).is_fin() && st == 0 {
        // nothing lost: the way back gives the same value
        let b = apf_ops::conv(c.g as usize, c.f as usize)(got.0, c.rm, true);
        let w = (s.canon_bits(c.a), 0, false);
        if b != w {
            return Res::Fail(format!("lossless there, but not back: {}", mismatch(c.f, (b.0, b.1), (w.0, 0))));
        }
    }
    Res::Ok(result_class(t, v, st), s.decode(c.a).is_fin())
}

fn p12(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for f in [0u8, 4, 5, 6, 8, 9, 10, 14, 16, 17, 19, 20] {
        let n = 1u64 << gen::sp(f).bits;
        let modes = if n > 1024 && e == 1 { 1 } else { 5 };
        v.push(full_phase(format!("all of {} to every format", gen::sp(f).name), n * NF * modes, move |i, _| {
            let (a, i) = (i % n, i / n);
            let rm = if modes == 1 { (a % 5) as u8 } else { (i / NF) as u8 };
            Case { op: CONV, f, g: (i % NF) as u8, rm, a: a as u128, ..Case::default() }
        }));
    }
    v.push(phase("structured values", 24_000_000 * e, |_, r| gen_conv(r)));
    v
}

// ------------------------------------------------------ P18 ilogb, scalbn, frexp
const SCALE_CLASSES: &[&str] = &["special", "exact", "rounded in the subnormal range", "overflow", "extreme exponent"];

fn gen_scale(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = gen::bits(r, sp);
    let x = sp.ilogb(sp.decode(a)).unwrap_or(0) as i64;
    let n = match r.below(10) {
        0 => r.range(-10, 10),
        1 => r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 0x8000, -0x8000, 0x10000, -0x10000]) as i64,
        2 => r.range(i32::MIN as i64, i32::MAX as i64),
        3 | 4 => sp.emax as i64 - x + r.range(-2, 2),
        5 | 6 => sp.emin as i64 - x + r.range(-2, 2),
        7 => sp.qmin() as i64 - x + r.range(-3, sp.p as i64),
        8 => r.range(-2 * sp.emax as i64 - 2 * sp.p as i64, 2 * sp.emax as i64 + 2 * sp.p as i64),
        _ => -x,
    };
    Case { f, rm: gen::rm(r), a, n: n.clamp(i32::MIN as i64, i32::MAX as i64), ..Case::default() }
}

fn desc_scale(c: &Case) -> String {
    format!("ilogb/scalbn/frexp of {} by {} {}", show(c.f, c.a), c.n, RM_NAMES[c.rm as usize % 5])
}

fn check_scale(c: &Case) -> Res {
    if !valid(&Case { op: RINT, ..c.clone() }) || i32::try_from(c.n).is_err() {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let v = sp.decode(c.a);
    let n = c.n as i32;
    let got = (o.ilogb)(c.a);
    let want = sp.ilogb(v).unwrap_or(match v {
        Nan(..) => i32::MIN,
        Zero(_) => i32::MIN + 1,
        _ => i32::MAX,
    });
    if got != want {
        return Res::Fail(format!("ilogb: got {}, expected {}", got, want));
    }
    let got = (o.scalbn)(c.a, n, c.rm);
    let w = sp.scalbn(v, n, c.rm);
    let want = sp.encode(w);
    if got != want {
        return Res::Fail(format!("scalbn: got {}, expected {}", show(c.f, got), show(c.f, want)));
    }
    if c.rm == NTE && (o.scalbn_default)(c.a, n) != want {
        return Res::Fail("scalbn without a rounding mode differs from NearestTiesToEven".into());
    }
    let (m, x) = (o.frexp)(c.a, c.rm);
    let (wm, wx) = sp.frexp(v);
    let wm = sp.encode(wm);
    if (m, x) != (wm, wx) {
        return Res::Fail(format!("frexp: got ({}, {}), expected ({}, {})", show(c.f, m), x, show(c.f, wm), wx));
    }
    if c.rm == NTE && (o.frexp_default)(c.a) != (m, x) {
        return Res::Fail("frexp without a rounding mode differs from NearestTiesToEven".into());
    }
    if v.is_fin() {
        // x = fraction * 2^exponent, exactly, in every mode
        let back = (o.scalbn)(m, x, c.rm);
        if back != sp.canon_bits(c.a) {
            return Res::Fail(format!("scalbn(frexp) gives {}", show(c.f, back)));
        }
    }
    let k = if !v.is_fin() {
        0
    } else if c.n.abs() > 4 * sp.emax as i64 {
        4
    } else if let Fin(_, m, e) = v {
        let (_, st) = sp.round(v.neg(), &W::from(m), e as i64 + c.n, false, c.rm);
        match st {
            0 => 1,
            s if s & UNDERFLOW != 0 => 2,
            _ => 3,
        }
    } else {
        0
    };
    Res::Ok(k, v.is_fin() && n != 0)
}

fn p18(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for f in [0u8, 4, 5, 6, 8, 9, 10, 14, 16, 17, 19, 20] {
        let n = 1u64 << gen::sp(f).bits;
        let span = if n > 1024 { 16 } else { 320 };
        v.push(full_phase(format!("all of {}, exponents {}..{}", gen::sp(f).name, -span / 2, span / 2), n * span as u64 * 5, move |i, _| {
            let (a, i) = (i % n, i / n);
            Case { f, rm: (i % 5) as u8, a: a as u128, n: (i / 5) as i64 - span / 2, ..Case::default() }
        }));
    }
    v.push(phase("structured values and exponents", 12_000_000 * e, |_, r| gen_scale(r)));
    v
}

// ------------------------------------------------------------------ P19 NaN rules
fn nan(r: &mut Rng, sp: &Spec) -> u128 {
    let v = match r.below(5) {
        0 => sp.nan(),
        1 => sp.qnan(Some(r.u128())),
        2 => sp.snan(Some(r.u128())),
        3 => sp.snan(Some(1 << r.below(128))),
        _ => sp.qnan(Some(1 << r.below(128))),
    };
    sp.encode(v.with_sign(gen::neg(r)))
}

fn gen_nan(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let op = r.pick(&[ADD, SUB, MUL, DIV, FMA, FMA, FMOD, REM, RINT, UP, DOWN, CONV]);
    let n = arity(op);
    let which = r.below(n as u64 + 1);
    let mut v = [0u128; 3];
    for (i, x) in v.iter_mut().enumerate().take(n) {
        *x = if which == n as u64 {
            // invalid combinations of infinities and zeros
            let s = gen::neg(r);
            sp.encode(if r.below(4) == 0 { gen::fin(r, sp) } else { r.pick(&[Zero(s), sp.inf(s), Fin(s, 1, 0.min(sp.emax))]) })
        } else if i as u64 == which || r.below(3) == 0 {
            nan(r, sp)
        } else {
            gen::bits(r, sp)
        };
    }
    Case { op, f, g: if op == CONV { gen::fmt(r) } else { 0 }, rm: gen::rm(r), a: v[0], b: v[1], c: v[2], ..Case::default() }
}

const NAN_CLASSES: &[&str] = &["quiet operands", "signaling operand", "invalid operation on numbers", "numbers only, valid"];

fn check_nan(c: &Case) -> Res {
    if !valid(c) || (c.op == CONV && x87_pseudo(c)) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let of = out_fmt(c);
    let t = gen::sp(of);
    let got = lib(c);
    let ops: Vec<Val> = [c.a, c.b, c.c][..arity(c.op)].iter().map(|&x| sp.decode(x)).collect();
    let nans: Vec<Val> = ops.iter().copied().filter(|v| v.is_nan()).collect();
    let sig = nans.iter().any(|&v| sp.signaling(v));
    let res = t.decode(got.0);
    let k;
    if !nans.is_empty() {
        k = sig as u8;
        if !res.is_nan() {
            return Res::Fail(format!("a NaN operand gives {}", show(of, got.0)));
        }
        // The 8-bit NaN-only formats have a single NaN (per sign), always quiet.
        if !t.nan_only && t.signaling(res) && !(sp.x87 && c.op != CONV) {
            return Res::Fail(format!("the result {} is signaling", show(of, got.0)));
        }
        if (got.1 & INVALID != 0) != sig && !(c.op == FMA && !sig) {
            return Res::Fail(format!("status {} with {} signaling operand", status_str(got.1), if sig { "a" } else { "no" }));
        }
        if got.1 & !INVALID != 0 {
            return Res::Fail(format!("status {} from NaN operands", status_str(got.1)));
        }
    } else {
        k = if got.1 & INVALID != 0 { 2 } else { 3 };
        if got.1 & INVALID != 0 && !res.is_nan() {
            return Res::Fail(format!("invalid operation gives {}", show(of, got.0)));
        }
    }
    match check_op(c) {
        Res::Ok(..) => Res::Ok(k, k < 3),
        x => x,
    }
}

fn p19(e: u64) -> Vec<Phase> {
    vec![phase("operations on NaNs and invalid operations", 16_000_000 * e, |_, r| gen_nan(r))]
}

// -------------------------------------------------------------------- P20 inverse
fn gen_inv(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = match r.below(4) {
        0 => gen::bits(r, sp),
        1 => few_bits(r, sp),
        _ => {
            let e = match r.below(3) {
                0 => r.range(sp.qmin() as i64, sp.emax as i64),
                1 => r.pick(&[sp.emin, sp.emax]) as i64 + r.range(-3, 3),
                _ => r.range(-5, 5),
            } as i32;
            let e = e.clamp(sp.qmin(), sp.emax);
            let q = (e - sp.p + 1).max(sp.qmin());
            let v = sp.encode(Fin(gen::neg(r), 1 << (e - q), q));
            if r.below(4) == 0 {
                gen::nudge(sp, v, r.range(-1, 1))
            } else {
                v
            }
        }
    };
    Case { f, a, ..Case::default() }
}

fn check_inv(c: &Case) -> Res {
    if !valid(&Case { op: RINT, ..c.clone() }) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let v = sp.decode(c.a);
    let want = sp.inverse(v).map(|v| sp.encode(v));
    let got = (o.inverse)(c.a);
    if got != want {
        return Res::Fail(format!(
            "got {}, expected {}",
            got.map(|g| show(c.f, g)).unwrap_or("None".into()),
            want.map(|g| show(c.f, g)).unwrap_or("None".into())
        ));
    }
    if let Some(g) = got {
        // dividing by the operand is the same as multiplying by the inverse, in every mode
        for rm in 0..5 {
            let one = (o.mul)(c.a, g, rm);
            if one != (sp.encode(Fin(false, 1 << (sp.p - 1), 1 - sp.p)), 0) {
                return Res::Fail(format!("x * inverse = {}", show(c.f, one.0)));
            }
        }
        return Res::Ok(1, true);
    }
    Res::Ok(0, v.is_fin())
}

fn desc_a(c: &Case) -> String {
    show(c.f, c.a)
}

fn p20(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = [0u8, 4, 5, 6, 8, 9, 10, 11, 14, 16, 17, 19, 20].iter().map(|&f| all_values(f)).collect();
    for f in [1u8, 2, 3, 7, 12, 13] {
        let sp = gen::sp(f);
        let n = (sp.emax - sp.qmin() + 1) as u64;
        v.push(full_phase(format!("all powers of two of {}", sp.name), 2 * n, move |i, _| {
            let sp = gen::sp(f);
            let e = sp.qmin() + (i / 2) as i32;
            let q = (e - sp.p + 1).max(sp.qmin());
            Case { f, a: sp.encode(Fin(i % 2 == 1, 1 << (e - q), q)), ..Case::default() }
        }));
    }
    v.push(phase("structured values", 8_000_000 * e, |_, r| gen_inv(r)));
    v
}

// ------------------------------------------------- P21 signs and derived methods
fn check_derived(c: &Case) -> Res {
    if !valid(&Case { op: FMA, ..c.clone() }) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let s = sp.signbit();
    let (a, b) = (sp.canon_bits(c.a), sp.canon_bits(c.b));
    let eq = |what: &str, got: u128, want: u128| -> Option<Res> {
        (got != want).then(|| Res::Fail(format!("{}: got {}, expected {}", what, show(c.f, got), show(c.f, want))))
    };
    macro_rules! t {
        ($w:expr, $g:expr, $x:expr) => {
            if let Some(r) = eq($w, $g, $x) {
                return r;
            }
        };
    }
    // Sign operations act on the sign alone, for every category (NaNs and zeros included).
    t!("neg", (o.neg)(c.a), a ^ s);
    t!("neg twice", (o.neg)((o.neg)(c.a)), a);
    t!("abs", (o.abs)(c.a), a & !s);
    t!("copy_sign", (o.copy_sign)(c.a, c.b), (a & !s) | (b & s));
    // The operators round to nearest even; the assigning ones store the value.
    let k = (c.k.unsigned_abs() % 5) as usize;
    let (name, want) = match k {
        0 => ("+", (o.add)(c.a, c.b, NTE)),
        1 => ("-", (o.sub)(c.a, c.b, NTE)),
        2 => ("*", (o.mul)(c.a, c.b, NTE)),
        3 => ("/", (o.div)(c.a, c.b, NTE)),
        _ => ("%", (o.c_fmod)(c.a, c.b)),
    };
    let want_op = want;
    let got = (o.oper)(k as u8, c.a, c.b);
    if got != want {
        return Res::Fail(format!("operator {}: {}", name, mismatch(c.f, got, want)));
    }
    t!(&format!("operator {}=", name), (o.oper_assign)(k as u8, c.a, c.b), want.0);
    let (got, want) = ((o.fma_default)(c.a, c.b, c.c), (o.fma)(c.a, c.b, c.c, NTE));
    if got != want {
        return Res::Fail(format!("mul_add: {}", mismatch(c.f, got, want)));
    }
    // a - b is a + (-b)
    let vb = sp.decode(c.b);
    if !vb.is_nan() && !sp.decode(c.a).is_nan() {
        let (got, want) = ((o.sub)(c.a, c.b, c.rm), (o.add)(c.a, b ^ s, c.rm));
        if got != want {
            return Res::Fail(format!("a - b against a + -b: {}", mismatch(c.f, got, want)));
        }
    }
    // Rounding modes: negation swaps the two signed directions only.
    let want = [NTE, TONEG, TOPOS, TOZERO, NTA][c.rm as usize];
    if apf_ops::round_neg(c.rm) != want {
        return Res::Fail(format!("-{} is {}", RM_NAMES[c.rm as usize], RM_NAMES[apf_ops::round_neg(c.rm) as usize]));
    }
    // StatusAnd: the status and the value travel unchanged through and/map/unpack!.
    let (s1, s2) = (c.n as u8 & 31, (c.n >> 5) as u8 & 31);
    let x = c.a as u64;
    let want = ((x.wrapping_mul(3), s1), (x, s1 | s2), (x, s1));
    let got = apf_ops::status_plumbing(s1, s2, x);
    if got != want {
        return Res::Fail(format!("status plumbing: {:?}, expected {:?}", got, want));
    }
    Res::Ok(result_class(sp, sp.decode(want_op.0), want_op.1), true)
}

fn gen_derived(r: &mut Rng) -> Case {
    let c = super::arith::gen_fma(r);
    let sp = gen::sp(c.f);
    let b = match r.below(3) {
        0 => c.b,
        1 => gen::special(r, sp),
        _ => gen::related(r, sp, c.a),
    };
    let a = if r.below(8) == 0 { gen::special(r, sp) } else { c.a };
    // the remainder is slow on operands of very different magnitude
    let k = if r.below(16) == 0 { 4 } else { r.below(4) as i64 };
    Case { op: 0, k, n: r.below(1024) as i64, a, b, ..c }
}

fn desc_derived(c: &Case) -> String {
    if c.op > 1 {
        let what = ["from_u128/from_i128", "to_u128/to_i128", "scalbn", "frexp", "convert"].get(c.op as usize - 2).unwrap_or(&"?");
        return format!("{} without a mode: {} ({}), n = {}", what, show(c.f, c.a), c.a as i128, c.n);
    }
    format!(
        "{}, {}, {} {} operator {} statuses {:#x}",
        show(c.f, c.a),
        show(c.f, c.b),
        show(c.f, c.c),
        RM_NAMES[c.rm as usize % 5],
        ["+", "-", "*", "/", "%"][(c.k.unsigned_abs() % 5) as usize],
        c.n
    )
}

/// The functions without a rounding mode against those with one (ties to even, truncation to integers).
fn check_default(c: &Case) -> Res {
    let o = apf_ops::f(c.f as usize);
    let same = match c.op {
        2 if c.k & 1 == 0 => (o.from_u_default)(c.a) == (o.from_u)(c.a, NTE) && {
            let t = c.a.to_string();
            (o.parse_default)(&t).ok() == (o.parse)(&t, NTE).ok().map(|x| x.0)
        },
        2 => {
            let i = c.a as i128;
            let t = i.to_string();
            (o.from_i_default)(i) == (o.from_i)(i, NTE) && (o.parse_default)(&t).ok() == (o.parse)(&t, NTE).ok().map(|x| x.0)
        }
        _ if !valid(&Case { op: RINT, ..c.clone() }) => return Res::Skip,
        3 if (1..=128).contains(&c.n) => {
            let (u, i) = ((o.to_u)(c.a, c.n as usize, TOZERO, false), (o.to_i)(c.a, c.n as usize, TOZERO, false));
            (o.to_u_default)(c.a, c.n as usize) == (u.0, u.1) && (o.to_i_default)(c.a, c.n as usize) == (i.0, i.1)
        }
        4 if i32::try_from(c.n).is_ok() => (o.scalbn_default)(c.a, c.n as i32) == (o.scalbn)(c.a, c.n as i32, NTE),
        5 => (o.frexp_default)(c.a) == (o.frexp)(c.a, NTE),
        6 if valid(&Case { op: CONV, ..c.clone() }) => {
            let (f, g) = (c.f as usize, c.g as usize);
            apf_ops::conv_default(f, g)(c.a) == apf_ops::conv(f, g)(c.a, NTE, false)
        }
        _ => return Res::Skip,
    };
    if !same {
        return Res::Fail("the function without a rounding mode differs from the one with its default mode".into());
    }
    Res::Ok(0, true)
}

fn gen_default(r: &mut Rng) -> Case {
    match r.below(5) {
        0 => {
            let c = gen_from(r);
            Case { k: (c.op == FROMI) as i64, op: 2, ..c }
        }
        1 => Case { op: 3, ..gen_to(r) },
        2 => Case { op: 4, ..gen_scale(r) },
        3 => Case { op: 5, ..gen_scale(r) },
        _ => Case { op: 6, ..gen_conv(r) },
    }
}

fn check_status(c: &Case) -> Res {
    match c.op {
        0 => return check_derived(c),
        1 => {}
        _ => return check_default(c),
    }
    // StatusAnd::unwrap gives the value exactly when no flag is raised.
    let s = c.n as u8 & 31;
    let got = apf_ops::status_unwrap(s, 7);
    let want = if s == 0 { Ok(7) } else { Err(()) };
    if got != want {
        return Res::Fail(format!("unwrap with status {}: {:?}", status_str(s), got));
    }
    Res::Ok(0, true)
}

fn p21(e: u64) -> Vec<Phase> {
    let mut v = vec![full_phase("StatusAnd::unwrap for every status", 32, |i, _| Case { op: 1, n: i as i64, ..Case::default() })];
    for f in [5u8, 6, 9] {
        v.push(full_phase(format!("all pairs of {}, all operators", gen::sp(f).name), 5 << 16, move |i, _| Case {
            f,
            a: (i & 255) as u128,
            b: (i >> 8 & 255) as u128,
            c: (i & 127) as u128,
            k: (i >> 16) as i64,
            rm: (i % 5) as u8,
            n: (i % 1024) as i64,
            ..Case::default()
        }));
    }
    v.push(slow_phase("structured operands", 6_000_000 * e, |_, r| gen_derived(r)));
    v.push(phase("functions without a rounding mode", 4_000_000 * e, |_, r| gen_default(r)));
    v
}

const PAIR_RULE: &str = "Cases: operand pairs built to be equal, neighbouring, opposite, special or unrelated over all formats; all pairs of the tiny formats are enumerated. Non-trivial: both operands finite and non-zero.";

pub const PROPS: &[Prop] = &[
    Prop { id: "P08", title: "comparisons, minima and maxima", rule: PAIR_RULE, classes: CMP_CLASSES, phases: p08, check: check_cmp, describe: desc_ab },
    Prop { id: "P09", title: "encodings and classification", rule: "Cases: encodings of every format (all of them for formats of up to 19 bits, structured and uniform ones otherwise, with x87 non-canonical patterns), the constants of every format, NaN constructors with payloads. Non-trivial: all (each case exercises decoding, encoding and 18 predicates, or a constructor).", classes: ENC_CLASSES, phases: p09, check: check_enc, describe: desc_enc },
    Prop { id: "P10", title: "integer to float", rule: "Cases: integers near powers of two, with the tail below the rounding position chosen (zero, half, just off half, all ones), both signs, all formats and modes. Non-trivial: the integer is not zero.", classes: RESULT_CLASSES, phases: p10, check: |c| match check_from(c) { Res::Ok(k, _) => Res::Ok(k, c.a != 0), x => x }, describe },
    Prop { id: "P11", title: "float to integer", rule: "Cases: values around the limits of integer types of width 1..=128 and around half-integers, specials, all modes, with *is_exact preset both ways. Non-trivial: the operand is finite and non-zero.", classes: TOINT_CLASSES, phases: p11, check: check_to, describe: desc_to },
    Prop { id: "P12", title: "float to float", rule: "Cases: all ordered pairs of formats; values placed at the representable values, midpoints, neighbours of midpoints and range limits of the target; all values of the 8/16-bit formats. Non-trivial: the operand is finite and non-zero.", classes: RESULT_CLASSES, phases: p12, check: check_conv, describe },
    Prop { id: "P18", title: "ilogb, scalbn, frexp", rule: "Cases: values of every format and exponents steered to the overflow/underflow limits, plus extreme i32 exponents; all values of the small formats. Non-trivial: finite non-zero operand and non-zero exponent.", classes: SCALE_CLASSES, phases: p18, check: check_scale, describe: desc_scale },
    Prop { id: "P19", title: "NaN propagation and invalid operations", rule: "Cases: every operation with at least one quiet or signaling NaN operand (random payloads and signs), or with zero/infinity combinations. Non-trivial: a NaN operand is present, or the operation is invalid.", classes: NAN_CLASSES, phases: p19, check: check_nan, describe },
    Prop { id: "P20", title: "exact inverse", rule: "Cases: all powers of two of every format, all values of the small formats, structured values. Non-trivial: finite non-zero operand.", classes: &["no inverse", "inverse"], phases: p20, check: check_inv, describe: desc_a },
    Prop { id: "P21", title: "signs, operators and derived methods", rule: "Cases: operand triples of every format, an operator, a rounding mode and two status sets. Non-trivial: all (each case checks sign operations, one operator and its assigning form, mul_add, mode negation and status plumbing).", classes: RESULT_CLASSES, phases: p21, check: check_status, describe: desc_derived },
];
