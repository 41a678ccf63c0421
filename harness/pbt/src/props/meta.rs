//! P23, P24: relations between results of the library itself. The model is used
//! only to classify operands (decode), never to predict a result.

use super::arith::{few_bits, gen_fma, gen_rem};
use super::common::*;
use super::conv;
use apf_ops::Ops;

const RELATIONS: &[&str] = &[
    "bracketing by the directed modes",
    "mirror symmetry",
    "commutativity",
    "monotonicity",
    "fma against add and mul",
    "neutral elements",
    "exact subtraction of near operands",
    "multiplication by a power of two is scalbn",
    "double rounding through a wide format",
    "integer round trip",
    "remainder identities",
    "next_up is the least upper step",
    "division by an invertible divisor",
    "round_to_integral by a magic constant",
    "frexp and scalbn recombine",
    "comparison agrees with the sign of the difference",
    "widening and narrowing conversions",
    "square root free bound: (a/b)*b brackets a",
];
const N_REL: u8 = 18;

type Err = Result<bool, String>;

fn o(f: u8) -> &'static Ops {
    apf_ops::f(f as usize)
}

/// The operation `k` under mode `rm`.
fn go(c: &Case, k: u8, rm: u8) -> (u128, u8) {
    lib(&Case { op: k, rm, ..c.clone() })
}

fn zero(sp: &Spec, x: u128) -> bool {
    x & !sp.signbit() == 0
}

fn bracket(c: &Case, sp: &Spec, r: &[(u128, u8); 5], of: u8) -> Err {
    let _ = c;
    let s = |k: u8| format!("{} {} {}", RM_NAMES[k as usize], show(of, r[k as usize].0), status_str(r[k as usize].1));
    let nan = |x: u128| sp.decode(x).is_nan();
    if r.iter().any(|x| nan(x.0)) {
        if sp.nan_only && r.iter().any(|x| x.1 & OVERFLOW != 0) {
            return Ok(false);
        }
        for k in 1..5 {
            if r[k] != r[0] {
                return Err(format!("invalid result depends on the mode: {} / {}", s(0), s(k as u8)));
            }
        }
        return Ok(false);
    }
    let inexact = r[0].1 & INEXACT;
    for k in 1..5u8 {
        if r[k as usize].1 & INEXACT != inexact {
            return Err(format!("exactness depends on the mode: {} / {}", s(0), s(k)));
        }
    }
    let (lo, hi) = (r[TONEG as usize].0, r[TOPOS as usize].0);
    if inexact == 0 {
        for k in 1..5 {
            let same = r[k as usize].0 == r[0].0 || zero(sp, r[0].0) && zero(sp, r[k as usize].0);
            if !same {
                return Err(format!("an exact result depends on the mode: {} / {}", s(0), s(k)));
            }
        }
        return Ok(true);
    }
    let up = (o(of).next_up)(lo).0;
    if up != hi && !(zero(sp, up) && zero(sp, hi)) {
        return Err(format!("directed results are not adjacent: {} / {}", s(TONEG), s(TOPOS)));
    }
    let neg = hi & sp.signbit() != 0 || hi == 0 && lo & sp.signbit() != 0;
    let z = if neg { hi } else { lo };
    if r[TOZERO as usize].0 != z {
        return Err(format!("{} is not the directed result of lesser magnitude ({})", s(TOZERO), show(of, z)));
    }
    for k in [NTE, NTA] {
        if r[k as usize].0 != lo && r[k as usize].0 != hi {
            return Err(format!("{} is neither of {} / {}", s(k), s(TONEG), s(TOPOS)));
        }
    }
    let (e, a) = (r[NTE as usize].0, r[NTA as usize].0);
    if e != a {
        // A tie: one is even, the other is the one of greater magnitude.
        if e & 1 != 0 {
            return Err(format!("tie broken to odd: {}", s(NTE)));
        }
        if a == z {
            return Err(format!("tie broken toward zero: {}", s(NTA)));
        }
    }
    Ok(true)
}

fn le(f: u8, x: u128, y: u128) -> bool {
    (o(f).rel)(x, y).le
}

fn relation(c: &Case) -> Err {
    let sp = gen::sp(c.f);
    let f = c.f;
    let l = o(f);
    let sb = sp.signbit();
    let d = |x| sp.decode(x);
    let fin = |x: u128| d(x).is_fin();
    let k = (c.k.unsigned_abs() % 14) as u8;
    let rm = c.rm;
    let eq = |what: &str, x: (u128, u8), y: (u128, u8)| -> Err {
        if x == y {
            Ok(true)
        } else {
            Err(format!("{}: {} {} against {} {}", what, show(f, x.0), status_str(x.1), show(f, y.0), status_str(y.1)))
        }
    };
    match c.op {
        0 => {
            let k = [ADD, SUB, MUL, DIV, FMA, FROMU, FROMI, CONV, PARSE, RINT][(c.k.unsigned_abs() % 10) as usize];
            if k == RINT {
                // values, not encodings: only ordering can be asked
                let r: Vec<(u128, u8)> = (0..5).map(|m| go(c, RINT, m)).collect();
                if !fin(c.a) {
                    return Ok(false);
                }
                let (lo, hi, z) = (r[TONEG as usize].0, r[TOPOS as usize].0, r[TOZERO as usize].0);
                if !(le(f, lo, c.a) && le(f, c.a, hi)) {
                    return Err(format!("{} is not between {} and {}", show(f, c.a), show(f, lo), show(f, hi)));
                }
                for m in [NTE, NTA, TOZERO] {
                    let x = r[m as usize].0;
                    if x != lo && x != hi {
                        return Err(format!("{} {} is neither {} nor {}", RM_NAMES[m as usize], show(f, x), show(f, lo), show(f, hi)));
                    }
                }
                if z & !sb > c.a & !sb && !sp.x87 {
                    return Err(format!("toward zero went away: {}", show(f, z)));
                }
                return Ok(true);
            }
            let mut r = [(0, 0); 5];
            for (m, x) in r.iter_mut().enumerate() {
                *x = if k == PARSE {
                    match (l.parse)(&c.s, m as u8) {
                        Ok(x) => x,
                        Err(_) => return Ok(false),
                    }
                } else {
                    go(c, k, m as u8)
                };
            }
            let of = if k == CONV { c.g } else { f };
            bracket(c, gen::sp(of), &r, of)
        }
        1 => {
            // op(-operands, -mode) = -op(operands, mode)
            let k = [ADD, SUB, MUL, DIV, FMA, CONV, RINT, FROMI, FMOD, REM, UP][(c.k.unsigned_abs() % 11) as usize];
            let mrm = apf_ops::round_neg(rm);
            let x = go(c, k, rm);
            let mut m = c.clone();
            match k {
                MUL | DIV => m.a ^= sb,
                FMA => {
                    m.a ^= sb;
                    m.c ^= sb;
                }
                FMOD | REM => {
                    m.a ^= sb;
                    m.b ^= sb;
                }
                FROMI => {
                    if c.a as i128 == i128::MIN || c.a == 0 {
                        return Ok(false);
                    }
                    m.a = (c.a as i128).wrapping_neg() as u128;
                }
                CONV | RINT | UP => m.a ^= sb,
                _ => {
                    m.a ^= sb;
                    m.b ^= sb;
                }
            }
            let y = if k == UP { go(&m, DOWN, mrm) } else { go(&m, k, mrm) };
            let of = if k == CONV { c.g } else { f };
            let osp = gen::sp(of);
            if osp.decode(x.0).is_nan() || osp.decode(y.0).is_nan() {
                // signs of NaNs follow other rules
                let both = osp.decode(x.0).is_nan() && osp.decode(y.0).is_nan() && x.1 == y.1;
                return if both { Ok(false) } else { Err(format!("only one side is NaN or the statuses differ: {} {} / {} {}", show(of, x.0), status_str(x.1), show(of, y.0), status_str(y.1))) };
            }
            let y = (y.0 ^ osp.signbit(), y.1);
            // (the sign of an exact zero sum does not mirror in the nearest modes)
            if x != y && !(x.1 == 0 && y.1 == 0 && zero(osp, x.0) && zero(osp, y.0) && matches!(k, ADD | SUB | FMA)) {
                return Err(format!("{} {} {} against the mirrored {} {}", NAMES[k as usize], show(of, x.0), status_str(x.1), show(of, y.0), status_str(y.1)));
            }
            Ok(true)
        }
        2 => {
            if d(c.a).is_nan() || d(c.b).is_nan() {
                return Ok(false);
            }
            let k = [ADD, MUL, FMA][(k % 3) as usize];
            let sw = Case { a: c.b, b: c.a, ..c.clone() };
            eq(NAMES[k as usize], go(c, k, rm), go(&sw, k, rm))
        }
        3 => {
            // a <= b  =>  op(a, c) <= op(b, c)
            let (lo, hi) = if le(f, c.a, c.b) {
                (c.a, c.b)
            } else if le(f, c.b, c.a) {
                (c.b, c.a)
            } else {
                return Ok(false);
            };
            let k = [ADD, SUB, MUL, DIV, CONV, RINT, FMA, UP, DOWN, FROMI][(c.k.unsigned_abs() % 10) as usize];
            let (mut x, mut y) = (Case { a: lo, b: c.c, ..c.clone() }, Case { a: hi, b: c.c, ..c.clone() });
            if k == FMA {
                // addends
                x = Case { a: c.c, b: c.c, c: lo, ..c.clone() };
                y = Case { a: c.c, b: c.c, c: hi, ..c.clone() };
            }
            if k == FROMI {
                let (p, q) = (c.a as i128, c.b as i128);
                x.a = p.min(q) as u128;
                y.a = p.max(q) as u128;
            }
            let (x, y) = (go(&x, k, rm).0, go(&y, k, rm).0);
            let of = if k == CONV { c.g } else { f };
            let osp = gen::sp(of);
            if osp.decode(x).is_nan() || osp.decode(y).is_nan() {
                return Ok(false);
            }
            let (x, y) = if matches!(k, MUL | DIV) && c.c & sb != 0 { (y, x) } else { (x, y) };
            if !le(of, x, y) {
                return Err(format!("{} is not monotonic: {} then {}", NAMES[k as usize], show(of, x), show(of, y)));
            }
            Ok(true)
        }
        4 => {
            let one = sp.encode(Fin(false, 1, 0));
            if !fin(c.a) || !fin(c.b) {
                return Ok(false);
            }
            match k % 3 {
                0 => eq("fma(a, 1, b) and a + b", (l.fma)(c.a, one, c.b, rm), (l.add)(c.a, c.b, rm)),
                1 => {
                    // A zero addend of the product's sign changes nothing.
                    let z = (c.a ^ c.b) & sb;
                    eq("fma(a, b, 0) and a * b", (l.fma)(c.a, c.b, z, rm), (l.mul)(c.a, c.b, rm))
                }
                _ => {
                    // If the product is exact, fusing makes no difference.
                    let p = (l.mul)(c.a, c.b, rm);
                    if p.1 != 0 || !fin(p.0) {
                        return Ok(false);
                    }
                    eq("fma(a, b, c) and (a * b) + c with an exact product", (l.fma)(c.a, c.b, c.c, rm), (l.add)(p.0, c.c, rm))
                }
            }
        }
        5 => {
            if !fin(c.a) {
                return Ok(false);
            }
            let one = sp.encode(Fin(false, 1, 0));
            let x = (sp.canon_bits(c.a), 0);
            eq("a * 1", (l.mul)(c.a, one, rm), x)?;
            eq("a / 1", (l.div)(c.a, one, rm), x)?;
            eq("a / a", (l.div)(c.a, c.a, rm), (one, 0))?;
            eq("a + 0", (l.add)(c.a, 0, rm), x)?;
            eq("a - 0", (l.sub)(c.a, 0, rm), x)?;
            eq("a * -1", (l.mul)(c.a, one | sb, rm), (x.0 ^ sb, 0))?;
            eq("a - a", (l.sub)(c.a, c.a, rm), (if rm == TONEG { sb } else { 0 }, 0))?;
            // a + a is 2 a
            let two = sp.encode(Fin(false, 1, 1));
            eq("a + a and a * 2", (l.add)(c.a, c.a, rm), (l.mul)(c.a, two, rm))
        }
        6 => {
            // Sterbenz: b/2 <= a <= 2b makes a - b exact, and then (a - b) + b is a.
            if !fin(c.a) || !fin(c.b) || (c.a ^ c.b) & sb != 0 {
                return Ok(false);
            }
            let (x, y) = (c.a & !sb, c.b & !sb);
            let two = sp.encode(Fin(false, 1, 1));
            let (x2, y2) = ((l.mul)(x, two, TOZERO).0, (l.mul)(y, two, TOZERO).0);
            if !(le(f, x, y2) && le(f, y, x2)) {
                return Ok(false);
            }
            let r = (l.sub)(c.a, c.b, rm);
            if r.1 != 0 {
                return Err(format!("a - b raised {}", status_str(r.1)));
            }
            eq("(a - b) + b and a", (l.add)(r.0, c.b, rm), (sp.canon_bits(c.a), 0))
        }
        7 => {
            if !fin(c.a) {
                return Ok(false);
            }
            let n = (c.n as i32).clamp(sp.emin, sp.emax);
            let p = sp.encode(Fin(false, 1, n));
            let m = (l.mul)(c.a, p, rm);
            eq("a * 2^n and scalbn(a, n)", (m.0, 0), ((l.scalbn)(c.a, n, rm), 0))
        }
        8 => {
            // Half in Single, Single in Double, BFloat in Single, Double in Quad, 8-bit in Half/Double ...
            let g = match f {
                0 => 1,
                1 => 2,
                2 => 3,
                4 => 2,
                5 | 6 => [0, 2][(c.n & 1) as usize],
                8 | 9 | 10 => 1,
                11 => 2,
                _ => return Ok(false),
            };
            let (a, b) = (c.a, c.b);
            let w = |x: u128| apf_ops::conv(f as usize, g as usize)(x, NTE, false);
            let (wa, wb) = (w(a), w(b));
            if !fin(a) || !fin(b) {
                return Ok(false);
            }
            if wa.1 != 0 || wa.2 || wb.1 != 0 || wb.2 {
                return Err(format!("widening is not exact: {:?} {:?}", wa, wb));
            }
            let k = [ADD, SUB, MUL, DIV][(k % 4) as usize];
            let wide = lib(&Case { op: k, f: g, rm: NTE, a: wa.0, b: wb.0, ..Case::default() });
            let back = apf_ops::conv(g as usize, f as usize)(wide.0, NTE, false);
            let direct = go(c, k, NTE);
            if back.0 != direct.0 {
                return Err(format!(
                    "{}: {} directly, {} through {}",
                    NAMES[k as usize],
                    show(f, direct.0),
                    show(f, back.0),
                    apf_ops::NAMES[g as usize]
                ));
            }
            // exactness: directly inexact iff inexact in one of the two steps
            let ine = (wide.1 | back.1) & INEXACT;
            if direct.1 & INEXACT != ine {
                return Err(format!("{}: status {} directly, {} then {} through {}", NAMES[k as usize], status_str(direct.1), status_str(wide.1), status_str(back.1), apf_ops::NAMES[g as usize]));
            }
            Ok(true)
        }
        9 => {
            let i = c.a as i128;
            let x = (l.from_i)(i, rm);
            let y = (l.to_i)(x.0, 128, rm, false);
            if x.1 == 0 && y != (i, 0, true) {
                return Err(format!("{} converts exactly to {} and back to {:?}", i, show(f, x.0), y));
            }
            if x.1 & OVERFLOW == 0 && fin(x.0) && rm == TOZERO && x.1 & INEXACT != 0 && y.1 == 0 && y.0.unsigned_abs() >= i.unsigned_abs() {
                return Err(format!("{} truncates to {} = {}", i, show(f, x.0), y.0));
            }
            let x = (l.from_u)(c.a, rm);
            let y = (l.to_u)(x.0, 128, rm, false);
            if x.1 == 0 && y != (c.a, 0, true) {
                return Err(format!("{} converts exactly to {} and back to {:?}", c.a, show(f, x.0), y));
            }
            Ok(x.1 == 0)
        }
        10 => {
            if !fin(c.a) || !fin(c.b) {
                return Ok(false);
            }
            let (x, y) = (c.a, c.b);
            let m = (l.c_fmod)(x, y).0;
            let r = (l.ieee_rem)(x, y).0;
            let (am, ar, ay) = (m & !sb, r & !sb, y & !sb);
            if !(l.rel)(am, ay).lt || m & sb != x & sb {
                return Err(format!("fmod {} is not below the divisor with the sign of the dividend", show(f, m)));
            }
            // 2|r| <= |y| (doubling may overflow to the largest value only if it is not below)
            let dbl = (l.add)(ar, ar, TOZERO);
            if dbl.1 & INEXACT != 0 && ar != 0 || !le(f, dbl.0, ay) {
                return Err(format!("ieee_rem {} exceeds half of the divisor", show(f, r)));
            }
            // fmod and ieee_rem differ by 0 or by the divisor.
            let same = m == r || ar == 0 && am == 0;
            if !same {
                let diff = (l.sub)(am, ay, NTE);
                let want = if x & sb != 0 { diff.0 ^ sb } else { diff.0 };
                if diff.1 != 0 || want != r {
                    return Err(format!("fmod {} and ieee_rem {} are not congruent", show(f, m), show(f, r)));
                }
            }
            // Reducing again changes nothing.
            eq("fmod(fmod(a, b), b)", (l.c_fmod)(m, y), (m, 0))?;
            eq("ieee_rem(ieee_rem(a, b), b)", (l.ieee_rem)(r, y), (r, 0))
        }
        11 => {
            // next_up(a) is a plus the smallest increment rounded up
            if !fin(c.a) {
                return Ok(false);
            }
            let tiny = sp.encode(sp.smallest(false));
            let up = (l.next_up)(c.a).0;
            let x = (l.add)(c.a, tiny, TOPOS).0;
            if up != x && !(zero(sp, up) && zero(sp, x)) && !(d(up).is_nan() && d(x).is_nan()) {
                return Err(format!("next_up {} but a + tiny rounds up to {}", show(f, up), show(f, x)));
            }
            Ok(true)
        }
        12 => {
            if !fin(c.a) || !fin(c.b) {
                return Ok(false);
            }
            let Some(i) = (l.inverse)(c.b) else { return Ok(false) };
            eq("a * (1/b) and a / b", (l.mul)(c.a, i, rm), (l.div)(c.a, c.b, rm))
        }
        13 => {
            // |a| < 2^(p-2): adding 1.5 * 2^(p-1) leaves no fraction bits
            if !fin(c.a) || sp.p < 4 || sp.emax <= sp.p || rm == NTA {
                return Ok(false);
            }
            if (l.ilogb)(c.a) >= sp.p - 2 {
                return Ok(false);
            }
            let magic = sp.encode(Fin(false, 3, sp.p - 2));
            // Toward zero depends on the sign: use the directed mode it stands for.
            let m = match (rm, c.a & sb != 0) {
                (TOZERO, false) => TONEG,
                (TOZERO, true) => TOPOS,
                (m, _) => m,
            };
            let s = (l.add)(c.a, magic, m);
            let back = (l.sub)(s.0, magic, m);
            let r = (l.rint)(c.a, rm);
            if back.1 != 0 || r.0 & !sb != back.0 & !sb || !zero(sp, r.0) && r.0 != back.0 || r.1 & INEXACT != s.1 & INEXACT {
                return Err(format!("round_to_integral {} {}, by the magic constant {} {}", show(f, r.0), status_str(r.1), show(f, back.0), status_str(s.1)));
            }
            Ok(true)
        }
        14 => {
            if !fin(c.a) {
                return Ok(false);
            }
            let (x, e) = (l.frexp)(c.a, rm);
            let half = sp.encode(Fin(false, 1, -1));
            let one = sp.encode(Fin(false, 1, 0));
            let ax = x & !sb;
            // (formats whose exponent range starts at one half cannot hold every fraction)
            if !(le(f, half, ax) && (l.rel)(ax, one).lt) {
                return Err(format!("fraction {} is not in [1/2, 1)", show(f, x)));
            }
            eq("scalbn(frexp(a))", ((l.scalbn)(x, e, rm), 0), (sp.canon_bits(c.a), 0))?;
            if (l.ilogb)(c.a) != e - 1 {
                return Err(format!("ilogb {} but frexp exponent {}", (l.ilogb)(c.a), e));
            }
            Ok(true)
        }
        15 => {
            if d(c.a).is_nan() || d(c.b).is_nan() || !(fin(c.a) && fin(c.b)) {
                return Ok(false);
            }
            let x = (l.sub)(c.a, c.b, rm).0;
            let rel = (l.rel)(c.a, c.b);
            let want = if zero(sp, x) {
                Ordering::Equal
            } else if x & sb != 0 {
                Ordering::Less
            } else {
                Ordering::Greater
            };
            // Gradual underflow: a difference is never rounded to zero.
            if rel.partial != Some(want) && !d(x).is_nan() {
                return Err(format!("a - b is {} but the comparison says {:?}", show(f, x), rel.partial));
            }
            Ok(true)
        }
        16 => {
            // to a wider format and back is the identity; a narrowed value converts again to itself
            let g = c.g;
            let gs = gen::sp(g);
            if !fin(c.a) {
                return Ok(false);
            }
            let there = apf_ops::conv(f as usize, g as usize);
            let back = apf_ops::conv(g as usize, f as usize);
            let x = there(c.a, rm, true);
            if gs.p >= sp.p && gs.emax >= sp.emax && gs.qmin() <= sp.qmin() && !(gs.nan_only && gs.emax == sp.emax) {
                if x.1 != 0 || x.2 {
                    return Err(format!("widening loses information: {} {}", show(g, x.0), status_str(x.1)));
                }
                let y = back(x.0, rm, true);
                if y != (sp.canon_bits(c.a), 0, false) {
                    return Err(format!("there and back: {} {}", show(f, y.0), status_str(y.1)));
                }
                return Ok(true);
            }
            if !gs.decode(x.0).is_fin() {
                return Ok(false);
            }
            if x.2 != (x.1 != 0) {
                return Err(format!("loses_info {} with status {}", x.2, status_str(x.1)));
            }
            let y = back(x.0, rm, true);
            if !x.2 && y != (sp.canon_bits(c.a), 0, false) {
                return Err(format!("lossless conversion to {} does not come back: {} {}", show(g, x.0), show(f, y.0), status_str(y.1)));
            }
            Ok(true)
        }
        17 => {
            if !fin(c.a) || !fin(c.b) {
                return Ok(false);
            }
            // q rounded down and up: qd * |b| <= |a| <= qu * |b|
            let (a, b) = (c.a & !sb, c.b & !sb);
            let (qd, qu) = ((l.div)(a, b, TONEG), (l.div)(a, b, TOPOS));
            if !d(qd.0).is_nan() {
                let lo = (l.mul)(qd.0, b, TONEG).0;
                if !d(lo).is_nan() && !le(f, lo, a) {
                    return Err(format!("quotient {} rounded down is too large", show(f, qd.0)));
                }
            }
            if !d(qu.0).is_nan() {
                let hi = (l.mul)(qu.0, b, TOPOS).0;
                if !d(hi).is_nan() && !le(f, a, hi) {
                    return Err(format!("quotient {} rounded up is too small", show(f, qu.0)));
                }
            }
            if qd.1 & INEXACT == 0 && !d(qd.0).is_nan() && !d(qd.0).is_fin() {
                return Err("finite operands, infinite exact quotient".into());
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn ok(c: &Case) -> bool {
    let m = |f: u8| SPECS[f as usize].mask();
    c.op < N_REL
        && (c.f as usize) < SPECS.len()
        && (c.g as usize) < SPECS.len()
        && c.rm <= 4
        && (uses_int(c) || c.a & !m(c.f) == 0 && c.b & !m(c.f) == 0)
        && c.c & !m(c.f) == 0
}

fn uses_int(c: &Case) -> bool {
    match c.op {
        0 => matches!(c.k.unsigned_abs() % 10, 5 | 6),
        1 => c.k.unsigned_abs() % 11 == 7,
        3 => c.k.unsigned_abs() % 10 == 9,
        9 => true,
        _ => false,
    }
}

fn check_meta(c: &Case) -> Res {
    if !ok(c) {
        return Res::Skip;
    }
    match relation(c) {
        Ok(n) => Res::Ok(c.op, n),
        Err(m) => Res::Fail(format!("{}: {}", RELATIONS[c.op as usize], m)),
    }
}

fn gen_meta(r: &mut Rng) -> Case {
    let f0 = gen_fma(r);
    let f = f0.f;
    let sp = gen::sp(f);
    let op = r.below(N_REL as u64) as u8;
    let mut c = Case { op, k: r.below(770) as i64, n: 0, g: gen::fmt(r), ..f0 };
    match op {
        0 | 3 | 1 if uses_int(&c) => {
            c.a = conv::int(r, sp.p);
            c.b = if r.bool() { c.a.wrapping_add(r.range(-3, 3) as u128) } else { conv::int(r, sp.p) };
        }
        0 | 1 => {
            let kind = c.k % if op == 0 { 10 } else { 11 };
            match (op, kind) {
                (0, 0 | 1) | (1, 0 | 1) => c.b = gen::related(r, sp, c.a),
                (0, 3) | (1, 3) => c.b = gen::scaled(r, sp, c.a, true),
                (0, 7) | (1, 5) => {
                    let g = gen::sp(c.g);
                    let e = gen::exp(r, g).clamp(sp.qmin(), sp.emax);
                    c.a = sp.encode(gen::with_exp(r, sp, e));
                }
                (0, 8) => {
                    let e = r.range(-(sp.emax.min(400) as i64), sp.emax.min(400) as i64) * 30103 / 100000;
                    let nd = r.range(1, 40);
                    let mut s: String = (0..nd).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                    if r.bool() {
                        s.insert(0, '-');
                    }
                    c.s = format!("{}e{}", s, e - nd + r.range(-3, 3));
                }
                (0, 9) | (1, 6) => {
                    let e = r.range(-3, sp.p as i64 + 1) as i32;
                    c.a = sp.encode(gen::with_exp(r, sp, e));
                }
                (1, 8 | 9) => {
                    let x = gen_rem(r);
                    c = Case { op, k: c.k, g: c.g, c: 0, ..x };
                }
                _ => {}
            }
        }
        2 | 15 => c.b = gen::related(r, sp, c.a),
        3 => {
            c.b = gen::nudge(sp, c.a, r.range(-3, 3));
            c.c = match c.k % 10 {
                2 => gen::scaled(r, sp, c.a, false),
                3 => gen::scaled(r, sp, c.a, true),
                _ => gen::related(r, sp, c.a),
            };
            if !sp.decode(c.a).is_fin() {
                c.b = gen::bits(r, sp);
            }
        }
        4 => {
            if c.k % 3 == 0 {
                c.b = gen::related(r, sp, c.a);
            }
            if c.k % 3 == 2 {
                c.a = few_bits(r, sp);
                c.b = few_bits(r, sp);
            }
        }
        6 => {
            if let Fin(s, m, e) = sp.decode(c.a) {
                let x = bitlen(m) + e - 1 + r.range(-1, 1) as i32;
                let v = gen::with_exp(r, sp, x).with_sign(s);
                c.b = if r.bool() { sp.encode(v) } else { gen::nudge(sp, c.a, r.range(-5, 5)) };
            }
        }
        7 => {
            if let Fin(_, m, e) = sp.decode(c.a) {
                let x = bitlen(m) + e - 1;
                c.n = match r.below(4) {
                    0 => r.range(-8, 8),
                    1 => r.range(sp.qmin() as i64 - 2, sp.emin as i64 + 2) - x as i64,
                    2 => sp.emax as i64 - x as i64 + r.range(-2, 2),
                    _ => r.range(sp.emin as i64, sp.emax as i64),
                };
            }
        }
        8 => {
            c.n = r.below(2) as i64;
            c.f = r.pick(&[0u8, 1, 2, 4, 5, 6, 8, 9, 10, 11]);
            let sp = gen::sp(c.f);
            c.a = gen::fbits(r, sp);
            c.b = match c.k % 4 {
                2 => gen::scaled(r, sp, c.a, false),
                3 => gen::scaled(r, sp, c.a, true),
                _ => gen::related(r, sp, c.a),
            };
            c.c = 0;
        }
        9 => c.a = conv::int(r, sp.p),
        10 => {
            let x = gen_rem(r);
            c = Case { op, k: c.k, g: c.g, c: 0, ..x };
        }
        12 => {
            c.b = sp.encode(Fin(r.bool(), 1, r.range(sp.emin as i64, sp.emax as i64) as i32));
            if r.bool() {
                c.a = gen::scaled(r, sp, c.b, true);
            }
        }
        13 => {
            let e = r.range(-4, sp.p as i64 - 3) as i32;
            c.a = sp.encode(gen::with_exp(r, sp, e));
        }
        16 => {
            let g = gen::sp(c.g);
            if r.bool() {
                let e = gen::exp(r, g).clamp(sp.qmin(), sp.emax);
                c.a = sp.encode(gen::with_exp(r, sp, e));
            }
        }
        17 => c.b = gen::scaled(r, sp, c.a, true),
        _ => {}
    }
    // The remainders are slow on the widest exponent ranges.
    if matches!(op, 1 | 10) && gen::sp(c.f).emax > 2000 && r.below(16) != 0 {
        c.op = 5;
    }
    c
}

fn desc_meta(c: &Case) -> String {
    if !ok(c) {
        return "invalid".into();
    }
    let ops = if uses_int(c) {
        format!("{}, {}", c.a as i128, c.b as i128)
    } else if !c.s.is_empty() {
        format!("{:?} as {}", c.s, apf_ops::NAMES[c.f as usize])
    } else {
        format!("{}, {}, {}", show(c.f, c.a), show(c.f, c.b), show(c.f, c.c))
    };
    format!("{} #{}: {} {} n={} other format {}", RELATIONS[c.op as usize], c.k, ops, RM_NAMES[c.rm as usize], c.n, apf_ops::NAMES[c.g as usize])
}

fn p23(e: u64) -> Vec<Phase> {
    vec![slow_phase("structured operands", 8_000_000 * e, |_, r| gen_meta(r))]
}

// ---------------------------------------------------------- P24 the status contract
const ST_OPS: u8 = 14;
const ST_CLASSES: &[&str] =
    &["exact", "inexact", "underflow", "overflow", "division by zero", "invalid", "conversion to integer"];

fn check_st(c: &Case) -> Res {
    if (c.f as usize) >= SPECS.len() || (c.g as usize) >= SPECS.len() || c.rm > 4 || c.op > ST_OPS {
        return Res::Skip;
    }
    let l = o(c.f);
    let sp = gen::sp(c.f);
    let is_int = matches!(c.op, FROMU | FROMI);
    if !is_int && c.a & !sp.mask() != 0 || c.b & !sp.mask() != 0 || c.c & !sp.mask() != 0 {
        return Res::Skip;
    }
    if c.op == ST_OPS {
        // Float to integer: the status, the exactness flag and the way back agree.
        let w = (c.n.unsigned_abs() % 128 + 1) as usize;
        let v = sp.decode(c.a);
        let signed = c.k & 1 != 0;
        let (val, st, exact) = if signed {
            let x = (l.to_i)(c.a, w, c.rm, c.k & 2 != 0);
            (x.0 as u128, x.1, x.2)
        } else {
            (l.to_u)(c.a, w, c.rm, c.k & 2 != 0)
        };
        let neg_zero = v == Zero(true);
        let bad = match st {
            0 => !exact && !neg_zero,
            INEXACT => exact || !v.is_fin() || (l.is_integer)(c.a),
            INVALID => exact,
            _ => true,
        };
        if bad {
            return Res::Fail(format!("{} with is_exact = {}", status_str(st), exact));
        }
        if st & INVALID == 0 {
            let back = if signed { (l.from_i)(val as i128, c.rm) } else { (l.from_u)(val, c.rm) };
            let r = (l.rint)(c.a, c.rm);
            let same = back.0 == r.0 || zero(sp, back.0) && zero(sp, r.0);
            let over = r.1 & OVERFLOW != 0;
            if !same || back.1 != 0 && !over {
                return Res::Fail(format!("{} is not the rounded operand {}", val as i128, show(c.f, r.0)));
            }
        }
        return Res::Ok(6, v.is_fin());
    }
    let (of, r, none) = if c.op == PARSE {
        match (l.parse)(&c.s, c.rm) {
            Ok(r) => (c.f, r, true),
            Err(_) => return Res::Ok(5, false),
        }
    } else {
        (out_fmt(c), lib(c), false)
    };
    let osp = gen::sp(of);
    let v = osp.decode(r.0);
    let st = r.1;
    let fail = |m: &str| Res::Fail(format!("{}: {} {}", m, show(of, r.0), status_str(st)));
    if st & !0x1f != 0 {
        return fail("unknown status bits");
    }
    let n = if none { 0 } else { arity(c.op) };
    let args = [c.a, c.b, c.c];
    let vals: Vec<Val> = args[..n].iter().map(|&x| sp.decode(x)).collect();
    let any_nan = vals.iter().any(|v| v.is_nan());
    let any_snan = vals.iter().any(|&v| sp.signaling(v));
    // Flags that exclude each other.
    if st & INVALID != 0 && st != INVALID || st & DIVZERO != 0 && st != DIVZERO {
        return fail("an exceptional flag together with others");
    }
    if st & (OVERFLOW | UNDERFLOW) != 0 && st & INEXACT == 0 {
        return fail("overflow or underflow without inexact");
    }
    if st & OVERFLOW != 0 && st & UNDERFLOW != 0 {
        return fail("overflow and underflow");
    }
    // Which results go with which flags.
    if st & INVALID != 0 && !v.is_nan() {
        return fail("invalid operation with a numeric result");
    }
    if any_nan && !v.is_nan() && !matches!(c.op, UP | DOWN) {
        return fail("a NaN operand disappeared");
    }
    if any_snan && st != INVALID {
        return fail("a signaling NaN without INVALID_OP");
    }
    if any_nan && !any_snan && st & !INVALID != 0 {
        return fail("a quiet NaN raised a flag");
    }
    if v.is_nan() && !any_nan && st == 0 && c.op != PARSE && !(osp.nan_only && matches!(c.op, UP | DOWN | CONV)) {
        return fail("a NaN from numbers without a flag");
    }
    if v.is_nan() && !any_nan && c.op != PARSE && !osp.nan_only && st != INVALID {
        return fail("a NaN from numbers without INVALID_OP");
    }
    if st & DIVZERO != 0 && !(c.op == DIV && vals[0].is_fin() && matches!(vals[1], Zero(_))) {
        return fail("division by zero raised by something else");
    }
    if c.op == DIV && vals[0].is_fin() && matches!(vals[1], Zero(_)) && st != DIVZERO {
        return fail("division by zero not raised");
    }
    if v.is_fin() || matches!(v, Zero(_)) {
        if st & (INVALID | DIVZERO | OVERFLOW) != 0 {
            return fail("finite result with an exceptional flag");
        }
    }
    let den = osp.is_denormal(v) || matches!(v, Zero(_));
    if (st & UNDERFLOW != 0) != (den && st & INEXACT != 0 && c.op != RINT) {
        return fail("underflow is not: inexact and below the normal range");
    }
    if matches!(v, Inf(_)) && st & OVERFLOW == 0 && st & DIVZERO == 0 && c.op != PARSE {
        // an infinity without overflow comes from an infinity (or from stepping past the largest)
        let stepped = matches!(c.op, UP | DOWN);
        if !stepped && !vals.iter().any(|v| matches!(v, Inf(_))) {
            return fail("an infinity out of nothing");
        }
    }
    if matches!(c.op, FMOD | REM | UP | DOWN) && st & !INVALID != 0 {
        return fail("an exact operation raised a rounding flag");
    }
    // Rounding toward zero and toward the far side never both reach the same inexact value.
    if st & INEXACT != 0 && !v.is_nan() && c.op != PARSE {
        let other = Case { rm: if c.rm == TOZERO { if v.neg() { TONEG } else { TOPOS } } else { TOZERO }, ..c.clone() };
        let x = lib(&other);
        if x.1 & INEXACT == 0 {
            return fail("inexact in one mode only");
        }
    }
    let k = if st & INVALID != 0 {
        5
    } else if st & DIVZERO != 0 {
        4
    } else if st & OVERFLOW != 0 {
        3
    } else if st & UNDERFLOW != 0 {
        2
    } else {
        (st & INEXACT != 0) as u8
    };
    Res::Ok(k, !any_nan)
}

fn gen_st(r: &mut Rng) -> Case {
    let op = r.below(ST_OPS as u64 + 1) as u8;
    let mut c = gen_fma(r);
    c.op = op;
    c.g = gen::fmt(r);
    c.k = r.below(4) as i64;
    let sp = gen::sp(c.f);
    match op {
        ADD | SUB => c.b = gen::related(r, sp, c.a),
        DIV => c.b = if r.below(8) == 0 { gen::special(r, sp) } else { gen::scaled(r, sp, c.a, true) },
        FMOD | REM => {
            let x = gen_rem(r);
            c.f = x.f;
            c.a = x.a;
            c.b = x.b;
            c.c = 0;
            if gen::sp(c.f).emax > 2000 && r.below(16) != 0 {
                c.op = ADD;
            }
        }
        RINT => {
            let e = r.range(-4, sp.p as i64 + 2) as i32;
            c.a = if r.below(4) == 0 { gen::bits(r, sp) } else { sp.encode(gen::with_exp(r, sp, e)) };
        }
        UP | DOWN => c.a = gen::bits(r, sp),
        FROMU | FROMI => c.a = conv::int(r, sp.p),
        CONV => {
            let g = gen::sp(c.g);
            let e = gen::exp(r, g).clamp(sp.qmin(), sp.emax);
            c.a = if r.below(4) == 0 { gen::bits(r, sp) } else { sp.encode(gen::with_exp(r, sp, e)) };
        }
        PARSE => {
            let e = r.range(-(sp.emax.min(400) as i64) - sp.p as i64, sp.emax.min(400) as i64 + 2) * 30103 / 100000;
            let nd = r.range(1, 30);
            let s: String = (0..nd).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            c.s = format!("{}{}e{}", if r.bool() { "-" } else { "" }, s, e - nd + r.range(-1, 3));
        }
        ST_OPS => {
            c.n = r.range(0, 127);
            let e = (c.n as i32 + r.range(-3, 3) as i32).min(sp.emax);
            c.a = match r.below(4) {
                0 => gen::bits(r, sp),
                1 => {
                    let e = r.range(-4, sp.p as i64 + 1) as i32;
                    sp.encode(gen::with_exp(r, sp, e))
                }
                _ => sp.encode(gen::with_exp(r, sp, e)),
            };
        }
        _ => {}
    }
    if matches!(op, ADD..=FMA) && r.below(12) == 0 {
        let x = gen::special(r, sp);
        match r.below(3) {
            0 => c.a = x,
            1 => c.b = x,
            _ => c.c = x,
        }
    }
    c
}

fn desc_st(c: &Case) -> String {
    if c.op == ST_OPS {
        return format!("to_{}128 of {} width {} {}", if c.k & 1 != 0 { "i" } else { "u" }, show(c.f, c.a), c.n.unsigned_abs() % 128 + 1, RM_NAMES[c.rm as usize % 5]);
    }
    describe(c)
}

fn p24(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = gen::TINY.iter().map(|&f| pairs_phase(&[ADD, SUB, MUL, DIV, FMOD, REM], f, 5)).collect();
    v.push(slow_phase("structured operands", 8_000_000 * e, |_, r| gen_st(r)));
    v
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "P23",
        title: "relations between results",
        rule: "Cases: one of 18 algebraic relations, a format, operands shaped for that relation, a rounding mode. Non-trivial: the premise of the relation holds (operands in its domain), so that an equation or an inequality between library results is actually evaluated.",
        classes: RELATIONS,
        phases: p23,
        check: check_meta,
        describe: desc_meta,
    },
    Prop {
        id: "P24",
        title: "status flags",
        rule: "Cases: every status-returning operation of every format on structured operands and specials, every rounding mode; all operand pairs of the tiny formats. Non-trivial: no operand is NaN.",
        classes: ST_CLASSES,
        phases: p24,
        check: check_st,
        describe: desc_st,
    },
];
