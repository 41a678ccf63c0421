//! P13..P17: text. The oracle is an independent reading of the grammar and exact
//! big-integer arithmetic.

use super::common::*;
use crate::big::Big;

// ------------------------------------------------------------ reference grammar
pub enum Parsed {
    Err,
    /// Accepted or not: not specified (a payload with a sign of its own).
    Open,
    Inf(bool),
    Nan(bool, bool, Option<u128>),
    /// sign, digits (0..=9), power of ten
    Dec(bool, Vec<u8>, i64),
    /// sign, digits (0..=15), power of two
    Hex(bool, Vec<u8>, i64),
}

pub fn parse(s: &str) -> Parsed {
    if !s.is_ascii() {
        return Parsed::Err;
    }
    let (minus, plus, t) = match s.as_bytes().first() {
        Some(b'-') => (true, false, &s[1..]),
        Some(b'+') => (false, true, &s[1..]),
        _ => (false, false, s),
    };
    match t {
        "Inf" if minus || plus => return Parsed::Inf(minus),
        "inf" | "INFINITY" if !plus => return Parsed::Inf(minus),
        _ => {}
    }
    if !plus {
        let (sig, u) = match t.as_bytes().first() {
            Some(b's' | b'S') => (true, &t[1..]),
            _ => (false, t),
        };
        if u.starts_with("nan") || u.starts_with("NaN") {
            let mut u = &u[3..];
            if u.len() > 2 && u.starts_with('(') && u.ends_with(')') {
                u = &u[1..u.len() - 1];
            }
            if u.is_empty() {
                return Parsed::Nan(minus, sig, None);
            }
            let (radix, d) = if u.len() > 2 && (u.starts_with("0x") || u.starts_with("0X")) {
                (16u32, &u[2..])
            } else if u.len() > 1 && u.starts_with('0') {
                (8, &u[1..])
            } else {
                (10, u)
            };
            if d.starts_with('+') {
                return Parsed::Open;
            }
            let mut v: u128 = 0;
            for ch in d.chars() {
                let Some(x) = ch.to_digit(radix) else { return Parsed::Err };
                let Some(y) = v.checked_mul(radix as u128).and_then(|v| v.checked_add(x as u128)) else { return Parsed::Err };
                v = y;
            }
            return Parsed::Nan(minus, sig, Some(v));
        }
    }
    let b = t.as_bytes();
    let hex = b.len() >= 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X');
    let b = if hex { &b[2..] } else { b };
    let mut digits = vec![];
    let mut frac: Option<i64> = None;
    let mut i = 0;
    let mut exp: Option<(i64, bool)> = None;
    while i < b.len() {
        let c = b[i] as char;
        if c == '.' {
            if frac.is_some() {
                return Parsed::Err;
            }
            frac = Some(0);
        } else if let Some(d) = c.to_digit(if hex { 16 } else { 10 }) {
            digits.push(d as u8);
            if let Some(f) = frac.as_mut() {
                *f += 1;
            }
        } else if matches!((c, hex), ('e' | 'E', false) | ('p' | 'P', true)) {
            let mut j = i + 1;
            let neg = b.get(j) == Some(&b'-');
            if neg || b.get(j) == Some(&b'+') {
                j += 1;
            }
            let mut x: i64 = 0;
            let any = j < b.len();
            for &d in &b[j..] {
                if !d.is_ascii_digit() {
                    return Parsed::Err;
                }
                x = (x * 10 + (d - b'0') as i64).min(1_000_000_000_000);
            }
            exp = Some((if neg { -x } else { x }, any));
            break;
        } else {
            return Parsed::Err;
        }
        i += 1;
    }
    if digits.is_empty() {
        return Parsed::Err;
    }
    let f = frac.unwrap_or(0);
    if hex {
        // the binary exponent is mandatory
        match exp {
            Some((x, true)) => Parsed::Hex(minus, digits, x - 4 * f),
            _ => Parsed::Err,
        }
    } else {
        // an exponent without digits counts as zero
        Parsed::Dec(minus, digits, exp.map(|e| e.0).unwrap_or(0) - f)
    }
}

fn hex_big(d: &[u8]) -> Big {
    let mut v = vec![0u64; d.len() / 16 + 1];
    for (i, &x) in d.iter().rev().enumerate() {
        v[i / 16] |= (x as u64) << (i % 16 * 4);
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    Big(v)
}

fn trim(d: &[u8]) -> (&[u8], i64) {
    let a = d.iter().position(|&x| x != 0).unwrap_or(d.len());
    let z = d.iter().rposition(|&x| x != 0).map(|i| i + 1).unwrap_or(a);
    (&d[a..z], (d.len() - z) as i64)
}

/// Value and status of an accepted text; None when rejected.
pub fn read(sp: &Spec, s: &str, rm: u8) -> Result<Option<(Val, u8)>, ()> {
    Ok(Some(match parse(s) {
        Parsed::Err => return Ok(None),
        Parsed::Open => return Err(()),
        Parsed::Inf(n) => (sp.inf(n), 0),
        Parsed::Nan(n, sig, p) => ((if sig { sp.snan(p) } else { sp.qnan(p) }).with_sign(n), 0),
        Parsed::Dec(n, d, e) => {
            let (d, z) = trim(&d);
            if d.is_empty() {
                (Zero(n), 0)
            } else {
                sp.round_decimal(n, &Big::from_decimal(d), e + z, rm)
            }
        }
        Parsed::Hex(n, d, e) => {
            let (d, z) = trim(&d);
            if d.is_empty() {
                (Zero(n), 0)
            } else {
                sp.round_big(n, &hex_big(d), e + 4 * z, false, rm)
            }
        }
    }))
}

fn check_parse(c: &Case) -> Res {
    if c.f as usize >= SPECS.len() || c.rm > 4 {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    if c.op == 1 {
        let (Some((far, near)), (0..=8_000_000, -30_000..=30_000)) = (far_text(c), (c.n, c.k)) else { return Res::Skip };
        let Ok(Some((v, st))) = read(sp, &near, c.rm) else { return Res::Skip };
        let want = (sp.encode(v), st);
        return match (o.parse)(&far, c.rm) {
            Ok(g) if g == want => Res::Ok(result_class(sp, v, st), true),
            Ok(g) => Res::Fail(mismatch(c.f, g, want)),
            Err(e) => Res::Fail(format!("rejected: {}", e)),
        };
    }
    let got = (o.parse)(&c.s, c.rm);
    let want = match read(sp, &c.s, c.rm) {
        Err(()) => return Res::Ok(8, false),
        Ok(w) => w.map(|(v, s)| (sp.encode(v), s)),
    };
    match (&got, want) {
        (Err(_), None) => {}
        (Ok(g), Some(w)) if *g == w => {}
        (Ok(g), Some(w)) => return Res::Fail(mismatch(c.f, *g, w)),
        (Ok(g), None) => return Res::Fail(format!("accepted as {}, but it is not in the grammar", show(c.f, g.0))),
        (Err(e), Some(w)) => return Res::Fail(format!("rejected ({}), expected {}", e, show(c.f, w.0))),
    }
    if c.rm == NTE {
        let d = (o.parse_default)(&c.s);
        if d.ok() != got.ok().map(|g| g.0) {
            return Res::Fail("FromStr differs from from_str_r with NearestTiesToEven".into());
        }
    }
    Res::Ok(
        match want {
            None => 8,
            Some((b, s)) => result_class(sp, sp.decode(b), s),
        },
        want.is_some_and(|(_, s)| s != 0) || c.s.len() > 3,
    )
}

/// A short text, and the same number written with `n` zeros that its exponent makes up for.
fn far_text(c: &Case) -> Option<(String, String)> {
    let hex = c.g & 2 != 0;
    let ok = |b: u8| if hex { b.is_ascii_hexdigit() } else { b.is_ascii_digit() };
    if c.s.is_empty() || c.s.len() > 60 || !c.s.bytes().all(ok) {
        return None;
    }
    let (z, t) = ("0".repeat(c.n.clamp(0, 8_000_000) as usize), c.k);
    let step = if hex { 4 } else { 1 };
    let head = format!("{}{}", if c.g & 4 != 0 { "-" } else { "" }, if hex { "0x" } else { "" });
    let e = if hex { 'p' } else { 'e' };
    let far = if c.g & 1 != 0 {
        format!("{}{}{}{}{}", head, c.s, z, e, t - step * c.n)
    } else {
        format!("{}0.{}{}{}{}", head, z, c.s, e, t + step * (c.n + c.s.len() as i64))
    };
    Some((far, format!("{}{}{}{}", head, c.s, e, t)))
}

fn gen_far(r: &mut Rng, hex: bool) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let set: &[u8] = if hex { b"0123456789abcdefABCDEF" } else { b"0123456789" };
    let m = if r.bool() { 3 } else { 40 };
    let len = 1 + r.below(m);
    let mut s: String = (0..len).map(|_| r.pick(set) as char).collect();
    if s.bytes().all(|b| b == b'0') {
        s.push('1');
    }
    let x = sp.emax as i64;
    let t = if hex {
        r.range(-x - sp.p as i64 - 8, x + 4) - 4 * s.len() as i64
    } else {
        let x = (x * 3 / 10).min(400);
        r.range(-x - 20, x + 2) - s.len() as i64
    };
    // Lengths around powers of ten and two up to some millions, long ones seldom.
    let top = r.below(23);
    let n = match r.below(3) {
        0 => (1i64 << top) + r.range(-3, 3),
        1 => 10i64.pow(top as u32 * 7 / 23) + r.range(-3, 3),
        _ => r.below(1 << top) as i64,
    };
    Case { op: 1, f, rm: gen::rm(r), g: r.below(2) as u8 | (hex as u8) << 1 | (r.below(2) as u8) << 2, s, n: n.max(0), k: t, ..Case::default() }
}

const PARSE_CLASSES: &[&str] = &[
    "special",
    "exact normal",
    "inexact normal",
    "exact subnormal",
    "underflow",
    "overflow",
    "zero",
    "invalid",
    "rejected",
];

fn desc_parse(c: &Case) -> String {
    if c.op == 1 {
        let (_, near) = far_text(c).unwrap_or_default();
        return format!(
            "{} written with {} {} zeros, as {} {}",
            near,
            c.n,
            if c.g & 1 != 0 { "trailing" } else { "leading" },
            apf_ops::NAMES[c.f as usize % apf_ops::N_ALL],
            RM_NAMES[c.rm as usize % 5]
        );
    }
    let s = if c.s.len() > 120 { format!("{}...({} bytes)", &c.s.chars().take(100).collect::<String>(), c.s.len()) } else { c.s.clone() };
    format!("{:?} as {} {}", s, apf_ops::NAMES[c.f as usize % apf_ops::N_ALL], RM_NAMES[c.rm as usize % 5])
}

// ----------------------------------------------------------------- P13 decimals
/// Writes digits * 10^exp10 in one of the many possible layouts.
fn layout(r: &mut Rng, neg: bool, digits: &str, exp10: i64) -> String {
    let mut d = digits.to_string();
    let mut e = exp10;
    if r.below(6) == 0 {
        d = format!("{}{}", "0".repeat(1 + r.below(4) as usize), d);
    }
    if r.below(6) == 0 {
        let z = 1 + r.below(5);
        d.push_str(&"0".repeat(z as usize));
        e -= z as i64;
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if r.below(8) == 0 {
        s.push('+');
    }
    // position of the dot, from the left
    let n = d.len() as i64;
    match r.below(6) {
        0 => {}
        1 => {
            // plain notation if reasonable
            let pos = n + e;
            if pos > 0 && pos <= n {
                d.insert(pos as usize, '.');
                e = 0;
            } else if pos <= 0 && pos > -400 {
                d = format!("{}.{}{}", if r.bool() { "0" } else { "" }, "0".repeat(-pos as usize), d);
                e = 0;
            } else if e > 0 && e < 400 {
                d.push_str(&"0".repeat(e as usize));
                e = 0;
            }
        }
        2 => {
            d.insert(1, '.');
            e += n - 1;
        }
        3 => {
            d.insert(0, '.');
            e += n;
        }
        4 => d.push('.'),
        _ => {
            let k = r.below(n as u64 + 1) as i64;
            d.insert(k as usize, '.');
            e += n - k;
        }
    }
    s.push_str(&d);
    if e != 0 || r.below(6) == 0 {
        s.push(if r.bool() { 'e' } else { 'E' });
        if e >= 0 && r.below(3) == 0 {
            s.push('+');
        }
        if e < 0 {
            s.push('-');
        }
        if r.below(8) == 0 {
            s.push_str("000");
        }
        s.push_str(&e.unsigned_abs().to_string());
    }
    s
}

/// Exact decimal expansion of m * 2^e.
pub fn exact(m: &Big, e: i64) -> (String, i64) {
    if e >= 0 {
        (m.shl(e).to_decimal(), 0)
    } else {
        (m.mul(&Big::pow5((-e) as u64)).to_decimal(), e)
    }
}

/// Length of a run: mostly up to `n`, sometimes much longer.
fn run(r: &mut Rng, n: i64) -> i64 {
    match r.below(48) {
        0 => r.range(2, 25 * n),
        1..=2 => r.range(2, 5 * n),
        _ => r.range(2, n),
    }
}

fn bump(d: &str, up: bool) -> String {
    let b = Big::from_decimal(&d.bytes().map(|c| c - b'0').collect::<Vec<_>>());
    let one = Big::from(1);
    if up {
        b.add(&one).to_decimal()
    } else if b.cmp(&one) == Ordering::Greater {
        b.sub(&one).to_decimal()
    } else {
        d.to_string()
    }
}

/// Decimals placed exactly on, or a hair off, representable values and midpoints.
fn gen_boundary(r: &mut Rng, f: u8, limit: i64) -> Case {
    let sp = gen::sp(f);
    let v = loop {
        let v = match r.below(8) {
            0 => sp.largest(false),
            1 => r.pick(&[sp.smallest(false), sp.smallest_normal(false), Fin(false, 1, 0)]),
            _ => {
                let e = match r.below(6) {
                    0..=2 => r.range(-limit.min(130), limit.min(130)).clamp(sp.qmin() as i64, sp.emax as i64) as i32,
                    3 => gen::exp(r, sp),
                    4 => r.range(sp.qmin() as i64, sp.emin as i64 + 2) as i32,
                    _ => r.range(-limit, limit).clamp(sp.qmin() as i64, sp.emax as i64) as i32,
                };
                gen::with_exp(r, sp, e)
            }
        };
        if let Fin(_, m, e) = v {
            if (e as i64).abs() <= limit + sp.p as i64 {
                break (m, e as i64);
            }
            if limit < 16000 && (e as i64).abs() > limit {
                // too expensive for this phase: bring it closer to one
                let v = gen::with_exp(r, sp, r_clamp(e, limit, sp));
                if let Fin(_, m, e) = v {
                    break (m, e as i64);
                }
            }
        }
    };
    let (m, e) = v;
    // the value, the midpoint above it, the midpoint below it
    let (m, e) = match r.below(4) {
        0 => (Big::from(m), e),
        1 | 2 => (Big::from(m).shl(1).add(&Big::from(1)), e - 1),
        _ => (Big::from(m).shl(1).sub(&Big::from(1)), e - 1),
    };
    let (mut d, mut x) = exact(&m, e);
    match r.below(12) {
        0..=2 => {}
        10 | 11 => {
            // off by a few units of the last bits of one, two or four machine words
            let k = r.pick(&[62, 63, 64, 126, 127, 127, 127, 128, 129, 191, 254, 255, 255, 256, 511]) + r.range(-2, 2);
            let mut n = Big::from_decimal(&d.bytes().map(|c| c - b'0').collect::<Vec<_>>());
            let pad = ((k + 8) * 59 / 196 - d.len() as i64 + 3).max(0);
            for _ in 0..pad {
                n.mul_small_add(10, 0);
            }
            x -= pad;
            let delta = n.mul(&Big::from(1 + r.below(16) as u128)).shr(k + 2).0;
            n = if r.bool() { n.add(&delta) } else { n.sub(&delta) };
            d = n.to_decimal();
        }
        3 => d = bump(&d, true),
        4 => d = bump(&d, false),
        5 => {
            // far below the last digit
            let z = run(r, 60) as usize - 2;
            d.push_str(&"0".repeat(z));
            d.push(char::from(b'1' + r.below(9) as u8));
            x -= z as i64 + 1;
        }
        6 => {
            // just below
            let z = run(r, 60) as usize;
            d = bump(&d, false);
            d.push_str(&"9".repeat(z));
            x -= z as i64;
        }
        _ => {
            // rounded down or up to fewer digits: a few, or about what fills one, two or four
            // machine words
            let k = match r.below(4) {
                0 => 1 + r.below(40),
                1 => 17 + r.below(5),
                2 => 37 + r.below(3),
                _ => r.pick(&[19, 20, 57, 58, 75, 76, 77, 114, 115, 116, 152, 153, 154]),
            } as usize;
            if d.len() > k {
                x += (d.len() - k) as i64;
                d.truncate(k);
                if r.bool() {
                    d = bump(&d, true);
                }
            }
        }
    }
    let neg = r.bool();
    Case { f, rm: gen::rm(r), s: layout(r, neg, &d, x), ..Case::default() }
}

fn r_clamp(e: i32, limit: i64, sp: &Spec) -> i32 {
    ((e as i64 % limit) as i32).clamp(sp.qmin(), sp.emax)
}

fn gen_digits(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let n = match r.below(8) {
        0 => r.range(1, 3),
        1..=4 => r.range(1, 20),
        5 | 6 => r.range(15, 45),
        _ => r.range(40, 160),
    };
    let mut d = String::new();
    for i in 0..n {
        let c = match r.below(12) {
            0..=2 if i > 0 => b'0',
            3 => b'9',
            _ => b'0' + r.below(10) as u8,
        };
        d.push(c as char);
    }
    // decimal exponent of the leading digit
    let l = std::f64::consts::LOG10_2;
    let (lo, hi) = ((sp.qmin() as f64 * l) as i64, (sp.emax as f64 * l) as i64);
    let (lo, hi) = (lo.max(-700), hi.min(700));
    let top = match r.below(10) {
        0..=3 => r.range(-30, 30),
        4..=6 => r.range(lo - 3, hi + 3),
        7 => lo + r.range(-4, 4),
        8 => hi + r.range(-4, 4),
        _ => r.pick(&[i32::MAX as i64, i32::MIN as i64, 1 << 32, 99_999_999_999, -99_999_999_999, 5000, -5000, 20_000, -20_000]) + r.range(-2, 2),
    };
    let neg = r.bool();
    Case { f, rm: gen::rm(r), s: layout(r, neg, &d, top - n + 1), ..Case::default() }
}

/// Digit strings whose integer is a power of two, give or take a little (the top of the
/// significand is all ones or a one and zeros for one or more machine words).
fn gen_near_power(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let k = match r.below(3) {
        0 => r.range(100, 140),
        1 => r.range(120, 300),
        _ => r.range(1, 600),
    };
    let one = Big::from(1);
    let low = match r.below(4) {
        0 => Big::from(1 + r.below(9) as u128),
        1 => Big::from(r.u128() >> r.below(128)),
        _ => {
            // around one unit of the 127th, 255th ... bit
            let u = (k - r.pick(&[127, 127, 127, 128, 255, 256, 511])).max(0) + r.range(-3, 1);
            Big::from(1 + r.below(5) as u128).shl(u.max(0))
        }
    };
    let n = one.shl(k);
    let n = if n.cmp(&low) == Ordering::Greater && r.below(4) != 0 { n.sub(&low) } else { n.add(&low) };
    let d = n.to_decimal();
    let l = std::f64::consts::LOG10_2;
    let (lo, hi) = ((sp.qmin() as f64 * l) as i64, (sp.emax as f64 * l) as i64);
    let (lo, hi) = (lo.max(-400), hi.min(400));
    let top = if r.bool() { d.len() as i64 + r.range(-30, 30) } else { r.range(lo - 3, hi + 3) };
    let neg = r.bool();
    let x = top.clamp(lo - 3, hi + 3) - d.len() as i64;
    Case { f, rm: gen::rm(r), s: layout(r, neg, &d, x), ..Case::default() }
}

fn p13(e: u64) -> Vec<Phase> {
    vec![
        full_phase("all d.ddde+-x of up to 3 digits in the small formats, every mode", 1000 * 60 * 5 * 5, |i, _| {
            let (d, i) = (i % 1000, i / 1000);
            let (x, i) = (i % 60, i / 60);
            Case { f: [0u8, 4, 5, 6, 9][(i % 5) as usize], rm: (i / 5) as u8, s: format!("{}e{}", d, x as i64 - 45), ..Case::default() }
        }),
        slow_phase("random digits", 4_000_000 * e, |_, r| gen_digits(r)),
        slow_phase("on and around representable values and midpoints", 2_500_000 * e, |_, r| {
            let f = gen::fmt(r);
            gen_boundary(r, f, 400)
        }),
        slow_phase("integers around powers of two, scaled", 400_000 * e, |_, r| gen_near_power(r)),
        slow_phase("long runs of zeros that the exponent makes up for", 20_000 * e, |_, r| gen_far(r, false)),
        slow_phase("double: full range boundaries", 150_000 * e, |_, r| gen_boundary(r, 2, 1100)),
        slow_phase("quad and x87: full range boundaries", 400 * e, |_, r| {
            let f = r.pick(&[3u8, 7, 12]);
            gen_boundary(r, f, 16600)
        }),
        slow_phase("quad and x87: short decimals over the full range", 50_000 * e, |_, r| {
            let f = r.pick(&[3u8, 7, 12]);
            let n = r.range(1, 40);
            let d: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            let x = match r.below(5) {
                0 => -4950 + r.range(-25, 25),
                1 => 4932 + r.range(-4, 4),
                // the smallest subnormals
                2 => r.pick(&[-4950, -4964]) + r.range(-3, 3),
                _ => r.range(-4970, 4935),
            };
            let neg = r.bool();
            Case { f, rm: gen::rm(r), s: layout(r, neg, &d, x - n), ..Case::default() }
        }),
    ]
}

// ---------------------------------------------------------------- P14 hexadecimal
fn gen_hex(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let e = gen::exp(r, sp);
    let Fin(neg, m, e) = gen::with_exp(r, sp, e) else { unreachable!() };
    // Value m * 2^e, extended below by a few bits: a tie, off a tie, or nothing.
    let mut big = Big::from(m);
    let mut x = e as i64;
    match r.below(5) {
        0 => {}
        1 => {
            big = big.shl(1).add(&Big::from(1));
            x -= 1;
        }
        2 => {
            let k = run(r, 200);
            big = big.shl(1).add(&Big::from(1)).shl(k).add(&Big::from(1));
            x -= k + 1;
        }
        3 => {
            let k = run(r, 200);
            big = big.shl(1).add(&Big::from(1)).shl(k).sub(&Big::from(1));
            x -= k + 1;
        }
        _ => {
            let k = r.range(1, 64);
            big = big.shl(k).add(&Big::from((r.u64() >> (64 - k)) as u128));
            x -= k;
        }
    }
    let sh = r.below(4) as i64;
    let big = big.shl(sh);
    x -= sh;
    let mut d = String::new();
    let n = (big.bitlen() + 3) / 4;
    for i in (0..n).rev() {
        let v = (0..4).fold(0u32, |v, k| v | (big.bit(i * 4 + k) as u32) << k);
        let ch = char::from_digit(v, 16).unwrap();
        d.push(if r.bool() { ch.to_ascii_uppercase() } else { ch });
    }
    if r.below(5) == 0 {
        let z = run(r, 40);
        d.push_str(&"0".repeat(z as usize));
        x -= 4 * z;
    }
    if r.below(5) == 0 {
        d = format!("{}{}", "0".repeat(run(r, 40) as usize), d);
    }
    let n = d.len() as i64;
    match r.below(4) {
        0 => {}
        1 => {
            d.insert(1, '.');
            x += 4 * (n - 1);
        }
        _ => {
            let k = r.below(n as u64 + 1) as i64;
            d.insert(k as usize, '.');
            x += 4 * (n - k);
        }
    }
    if r.below(40) == 0 {
        x = r.pick(&[i32::MAX as i64, i32::MIN as i64, 99_999_999_999, -99_999_999_999, 40_000, -40_000]) + r.range(-300, 300);
    } else if r.below(4) == 0 {
        x += r.range(-3, 3);
    }
    let s = format!(
        "{}0{}{}{}{}{}{}",
        if neg { "-" } else { r.pick(&["", "", "+"]) },
        r.pick(&['x', 'X']),
        d,
        r.pick(&['p', 'P']),
        if x < 0 { "-" } else { r.pick(&["", "+"]) },
        r.pick(&["", "", "00"]),
        x.unsigned_abs()
    );
    Case { f, rm: gen::rm(r), s, ..Case::default() }
}

fn p14(e: u64) -> Vec<Phase> {
    vec![
        full_phase("all 3-digit hexadecimals in the small formats, every mode", 4096 * 48 * 5 * 5, |i, _| {
            let (d, i) = (i % 4096, i / 4096);
            let (x, i) = (i % 48, i / 48);
            Case {
                f: [0u8, 5, 6, 9, 10][(i % 5) as usize],
                rm: (i / 5) as u8,
                s: format!("0x{:x}.{:02x}p{}", d >> 8, d & 255, x as i64 - 26),
                ..Case::default()
            }
        }),
        phase("structured hexadecimals", 8_000_000 * e, |_, r| gen_hex(r)),
        slow_phase("long runs of zeros that the exponent makes up for", 20_000 * e, |_, r| gen_far(r, true)),
    ]
}

// --------------------------------------------------------------------- P15 grammar
const ALPHABET: &[u8] = b"018.eE+-xpnaifIN(sF";

const TOKENS: &[&str] = &[
    "0", "1", "9", "8", "f", ".", "e", "E", "+", "-", "0x", "0X", "p", "P", "nan", "NaN", "snan", "sNaN", "Snan", "s", "S", "(", ")", "inf", "Inf",
    "INFINITY", " ", "_", "é", "\u{0}", "00", "123", "99999999999", "NAN", "infinity", "Infinity", "nan(0x12)", "nan(017)", "nan42", "e5", "p-3",
    "1.5", "0x1.8p1", "1e10", "340282366920938463463374607431768211456", "ffffffffffffffffffffffffffffffff", "∞", "１", "٣", "\n", "1_0",
];

fn gen_grammar(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let mut s = String::new();
    match r.below(3) {
        0 => {
            for _ in 0..r.below(7) {
                s.push_str(r.pick(TOKENS));
            }
        }
        1 => {
            // NaN texts
            s.push_str(r.pick(&["", "-", "+", ""]));
            s.push_str(r.pick(&["", "s", "S", ""]));
            s.push_str(r.pick(&["nan", "NaN", "nan", "NAN", "Nan"]));
            let p = match r.below(6) {
                0 => format!("{}", r.u128() >> r.below(128)),
                1 => format!("0x{:x}", r.u128() >> r.below(128)),
                2 => format!("0X{:X}", r.u128() >> r.below(128)),
                3 => format!("0{:o}", r.u128() >> r.below(128)),
                4 => String::new(),
                _ => r.pick(&["0", "00", "0x", "08", "0x0g", "(", "+1", "-1", "1 ", "340282366920938463463374607431768211456"]).to_string(),
            };
            match r.below(4) {
                0 => s.push_str(&p),
                1 | 2 => s.push_str(&format!("({})", p)),
                _ => s.push_str(&{ let (x, y) = (r.pick(&["(", "", "(("]), r.pick(&[")", "", "))"])); format!("{}{}{}", x, p, y) }),
            }
        }
        _ => {
            s = if r.bool() { gen_digits(r).s } else { gen_hex(r).s };
            s.truncate(60);
            // one or two edits
            for _ in 0..1 + r.below(2) {
                let i = r.below(s.len() as u64 + 1) as usize;
                if !s.is_char_boundary(i) {
                    continue;
                }
                let t = r.pick(TOKENS);
                match r.below(3) {
                    0 => s.insert_str(i, t),
                    1 if i < s.len() && s.is_char_boundary(i + 1) => {
                        s.remove(i);
                    }
                    2 if i < s.len() && s.is_char_boundary(i + 1) => {
                        s.remove(i);
                        s.insert_str(i, t);
                    }
                    _ => {}
                }
            }
        }
    }
    Case { f, rm: gen::rm(r), s, ..Case::default() }
}

fn all_strings(len: u32, f: u8) -> Phase {
    let n = ALPHABET.len() as u64;
    full_phase(format!("all strings of length {} over {:?}", len, std::str::from_utf8(ALPHABET).unwrap()), n.pow(len), move |i, _| {
        let mut i = i;
        let mut s = String::new();
        for _ in 0..len {
            s.push(ALPHABET[(i % n) as usize] as char);
            i /= n;
        }
        Case { f, s, ..Case::default() }
    })
}

fn p15(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = (0..=4).map(|l| all_strings(l, 2)).collect();
    v.push(all_strings(5, 1));
    if e > 1 {
        v.push(all_strings(6, 0));
    }
    v.push(phase("edited numbers, NaN texts, token sequences", 6_000_000 * e, |_, r| gen_grammar(r)));
    v
}

// --------------------------------------------------------------------- P16 Display
/// Layout of the digits (`d` without leading or trailing zeros, value d * 10^exp).
fn render(neg: bool, d: &str, mut exp: i64, precision: i64, width: i64, alt: bool) -> String {
    let n = d.len() as i64;
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    let scientific = if width == 0 {
        true
    } else if exp >= 0 {
        exp > width || n + exp > precision
    } else {
        let msd = exp + n - 1;
        msd < 0 && -msd > width
    };
    if scientific {
        exp += n - 1;
        s.push_str(&d[..1]);
        s.push('.');
        if alt {
            s.push_str(&d[1..]);
            // as many zeros as it takes to show `precision` fractional digits
            s.push_str(&"0".repeat((precision - n + 1).max(0) as usize));
            s.push_str(&format!("e{}{:02}", if exp < 0 { '-' } else { '+' }, exp.abs()));
        } else {
            s.push_str(if n == 1 { "0" } else { &d[1..] });
            s.push_str(&format!("E{}{}", if exp < 0 { '-' } else { '+' }, exp.abs()));
        }
    } else if exp >= 0 {
        s.push_str(d);
        s.push_str(&"0".repeat(exp as usize));
    } else if -exp < n {
        let k = (n + exp) as usize;
        s.push_str(&d[..k]);
        s.push('.');
        s.push_str(&d[k..]);
    } else {
        s.push_str("0.");
        s.push_str(&"0".repeat((-exp - n) as usize));
        s.push_str(d);
    }
    s
}

fn strip(d: &str, e: i64) -> (String, i64) {
    let t = d.trim_end_matches('0');
    (t.to_string(), e + (d.len() - t.len()) as i64)
}

/// d (any number of digits) * 10^e to at most `precision` digits, half up.
fn half_up(d: &str, e: i64, precision: usize) -> (String, i64) {
    let (d, e) = strip(d, e);
    if d.len() <= precision {
        return (d, e);
    }
    let up = d.as_bytes()[precision] >= b'5';
    let e = e + (d.len() - precision) as i64;
    let d = &d[..precision];
    let d = if up { bump(d, true) } else { d.to_string() };
    strip(&d, e)
}

/// Digits of m * 2^e at a precision: rounded half up from the exact expansion.
fn digits_of(m: u128, e: i32, precision: usize) -> (String, i64) {
    let z = m.trailing_zeros();
    let (d, x) = exact(&Big::from(m >> z), e as i64 + z as i64);
    half_up(&d, x, precision)
}

fn display_args(c: &Case) -> (Option<usize>, Option<usize>, bool) {
    // k: bit 0 alternate, then width + 1 (0 = none); n: precision + 1 (0 = none)
    let alt = c.k & 1 == 1;
    let w = c.k >> 1;
    ((c.n > 0).then_some((c.n - 1) as usize), (w > 0).then_some((w - 1) as usize), alt)
}

/// Acceptable outputs.
pub fn display(sp: &Spec, v: Val, prec: Option<usize>, width: Option<usize>, alt: bool) -> Vec<String> {
    let w = width.unwrap_or(3);
    match v {
        Nan(..) => vec!["NaN".into()],
        Inf(s) => vec![(if s { "-Inf" } else { "+Inf" }).into()],
        Zero(s) => {
            let sign = if s { "-" } else { "" };
            vec![if w != 0 {
                format!("{}0", sign)
            } else if alt {
                format!("{}0.0{}e+00", sign, "0".repeat(prec.unwrap_or(0).saturating_sub(1)))
            } else {
                format!("{}0.0E+0", sign)
            }]
        }
        Fin(s, m, e) => {
            let p = prec.filter(|&p| p > 0).unwrap_or(2 + sp.p as usize * 59 / 196);
            { let (d, x) = digits_of(m, e, p);
            vec![render(s, &d, x, p as i64, w as i64, alt)] }
        }
    }
}

fn gen_display(r: &mut Rng, limit: i64) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let mut a = match r.below(6) {
        0 => gen::bits(r, sp),
        1 => sp.encode(sp.from_int(r.bool(), super::conv::int(r, sp.p), NTE).0),
        2 => {
            // short decimals
            let k = 1 + r.below(6) as u32;
            let d = r.below(10u64.pow(k)) as u128;
            sp.encode(sp.round_decimal(r.bool(), &Big::from(d), r.range(-8, 8), NTE).0)
        }
        3 => {
            // just around powers of ten: carries through nines
            let v = sp.encode(sp.round_decimal(r.bool(), &Big::from(1), r.range(-12, 12), NTE).0);
            if sp.decode(v).is_fin() {
                gen::nudge(sp, v, r.range(-3, 3))
            } else {
                v
            }
        }
        _ => {
            let e = r.range(-40, 40) as i32;
            sp.encode(gen::with_exp(r, sp, e))
        }
    };
    if let Fin(_, _, e) = sp.decode(a) {
        if (e as i64).abs() > limit {
            let e = r.range(-limit, limit) as i32 / 2;
            a = sp.encode(gen::with_exp(r, sp, e));
        }
    }
    if r.below(48) == 0 {
        a = sp.encode(Zero(r.bool()));
    }
    let prec = match r.below(16) {
        15 => r.range(0, 1200),
        0..=3 => -1,
        4..=7 => r.range(1, 5),
        8..=11 => r.range(1, 40),
        _ => 2 + sp.p as i64 * 59 / 196 + r.range(-3, 3),
    };
    let width = match r.below(16) {
        15 => r.range(0, 1200),
        0..=7 => -1,
        8..=11 => r.range(0, 6),
        _ => r.range(0, 50),
    };
    Case { f, a, n: prec + 1, k: (width + 1) << 1 | r.bool() as i64, ..Case::default() }
}

fn desc_display(c: &Case) -> String {
    let (p, w, alt) = display_args(c);
    format!("{} precision {:?} width {:?}{}", show(c.f, c.a), p, w, if alt { " alternate" } else { "" })
}

fn display_ok(c: &Case) -> bool {
    valid(&Case { op: RINT, ..c.clone() }) && (0..=2000).contains(&c.n) && (0..=4000).contains(&c.k)
}

fn check_display(c: &Case) -> Res {
    if !display_ok(c) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let (p, w, alt) = display_args(c);
    let v = sp.decode(c.a);
    let got = (o.display)(c.a, p, w, alt);
    let want = display(sp, v, p, w, alt);
    if !want.contains(&got) {
        return Res::Fail(format!("got {:?}, expected {:?}", got, want[0]));
    }
    if p.is_none() && w.is_none() && !alt && (o.to_string)(c.a) != got {
        return Res::Fail("to_string differs from {}".into());
    }
    if c.c > 0 {
        // A writer that fails.
        let limit = (c.c - 1) as usize;
        let (text, ok) = (o.display_to)(c.a, p, w, alt, limit);
        if ok != (limit >= got.len()) || !got.starts_with(&text) || ok && text != got {
            return Res::Fail(format!("a writer failing after {} bytes: wrote {:?}, success {}", limit, text, ok));
        }
        return Res::Ok(4, true);
    }
    let k = if !v.is_fin() {
        0
    } else if got.contains(['e', 'E']) {
        1
    } else if got.contains('.') {
        2
    } else {
        3
    };
    Res::Ok(k, v.is_fin())
}

const DISPLAY_CLASSES: &[&str] = &["special", "scientific", "fixed with a fraction", "integer", "failing writer"];

fn p16(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for f in [0u8, 4, 5, 6, 9, 10, 14, 16, 17, 19, 20] {
        let n = 1u64 << gen::sp(f).bits;
        let fine = n <= 1024;
        // precision none,1..=9, width none,0..=7, alternate
        let (np, nw) = if fine { (10u64, 9u64) } else { (1, 1) };
        v.push(full_phase(format!("all of {}", gen::sp(f).name), n * np * nw * 2, move |i, _| {
            let (a, i) = (i % n, i / n);
            let (alt, i) = (i % 2, i / 2);
            Case { f, a: a as u128, n: (i % np) as i64, k: ((i / np) << 1 | alt) as i64, ..Case::default() }
        }));
    }
    v.push(slow_phase("structured values and formatting options", 1_500_000 * e, |_, r| gen_display(r, 1100)));
    v.push(slow_phase("whole exponent range", 1_000 * e, |_, r| gen_display(r, 20_000)));
    v.push(slow_phase("writers that fail", 100_000 * e, |_, r| {
        let c = gen_display(r, 200);
        let (a, f) = (c.a, c.f);
        let a = if r.below(8) == 0 { gen::sp(f).encode(Zero(r.bool())) } else { a };
        let w = r.below(3);
        let k = if w == 0 { c.k & 1 | 2 } else { c.k };
        let limit = r.pick(&[3, 8, 30, 60]);
        Case { a, k, c: 1 + r.below(limit) as u128, ..c }
    }));
    v
}

// ------------------------------------------------------------------ P17 round trip
fn check_roundtrip(c: &Case) -> Res {
    if !display_ok(c) {
        return Res::Skip;
    }
    let sp = gen::sp(c.f);
    let o = apf_ops::f(c.f as usize);
    let (p, w, alt) = display_args(c);
    let v = sp.decode(c.a);
    // at least the natural precision
    let natural = 2 + sp.p as usize * 59 / 196;
    let p = p.filter(|_| c.n > 1).map(|p| p + natural);
    let text = (o.display)(c.a, p, w, alt);
    let back = match (o.parse)(&text, NTE) {
        Ok(b) => b,
        Err(e) => return Res::Fail(format!("the text {:?} is rejected: {}", text, e)),
    };
    let want = match v {
        Nan(..) => sp.encode(sp.nan()),
        v => sp.encode(v),
    };
    // (The 8-bit NaN-only formats have no infinity to print.)
    if back.0 != want {
        return Res::Fail(format!("the text {:?} reads back as {}", text, show(c.f, back.0)));
    }
    if let Fin(_, m, e) = v {
        // With enough digits for the exact expansion, the text is exact: no status, in every mode.
        let (d, _) = exact(&Big::from(m), e as i64);
        if d.len() < 60 || c.rm != 0 && d.len() < 400 {
            let text = (o.display)(c.a, Some(d.len().max(1)), w, alt);
            let got = (o.parse)(&text, c.rm);
            if got != Ok((want, 0)) {
                return Res::Fail(format!(
                    "the exact text {:?} reads back as {:?} {} under {}",
                    text,
                    got.map(|g| show(c.f, g.0)),
                    got.map(|g| status_str(g.1)).unwrap_or_default(),
                    RM_NAMES[c.rm as usize]
                ));
            }
        }
    }
    Res::Ok(if v.is_fin() { 1 + sp.is_denormal(v) as u8 } else { 0 }, v.is_fin())
}

fn gen_roundtrip(r: &mut Rng, limit: i64) -> Case {
    let c = gen_display(r, limit);
    Case { n: if r.bool() { 0 } else { r.range(1, 30) }, rm: gen::rm(r), ..c }
}

fn p17(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = [0u8, 4, 5, 6, 8, 9, 10, 14, 16, 17, 19, 20]
        .iter()
        .map(|&f| {
            let n = 1u64 << gen::sp(f).bits;
            full_phase(format!("all of {}", gen::sp(f).name), n * 2, move |i, _| Case {
                f,
                a: (i % n) as u128,
                rm: (i % 5) as u8,
                k: ((i / n) as i64) << 1,
                ..Case::default()
            })
        })
        .collect();
    v.push(slow_phase("structured values", 1_500_000 * e, |_, r| gen_roundtrip(r, 1100)));
    v.push(slow_phase("whole exponent range", 1_000 * e, |_, r| gen_roundtrip(r, 20_000)));
    v
}

fn desc_rt(c: &Case) -> String {
    format!("{} {}", desc_display(c), RM_NAMES[c.rm as usize % 5])
}

const TEXT_RULE: &str = "Non-trivial: the text has more than three characters, or its value is not exactly representable.";

pub const PROPS: &[Prop] = &[
    Prop { id: "P13", title: "decimal texts are correctly rounded", rule: TEXT_RULE, classes: PARSE_CLASSES, phases: p13, check: check_parse, describe: desc_parse },
    Prop { id: "P14", title: "hexadecimal texts are correctly rounded", rule: TEXT_RULE, classes: PARSE_CLASSES, phases: p14, check: check_parse, describe: desc_parse },
    Prop { id: "P15", title: "the accepted grammar", rule: TEXT_RULE, classes: PARSE_CLASSES, phases: p15, check: check_parse, describe: desc_parse },
    Prop { id: "P16", title: "digits and layout of Display", rule: "Cases: values of every format (all values of the 8-bit formats with all small precisions and widths), short decimals, neighbours of powers of ten, with precision, width and alternate flag. Non-trivial: finite and non-zero.", classes: DISPLAY_CLASSES, phases: p16, check: check_display, describe: desc_display },
    Prop { id: "P17", title: "Display round-trips through the parser", rule: "Cases: as for Display, with at least the natural precision; all values of the 8- and 16-bit formats. Non-trivial: finite and non-zero.", classes: &["special", "normal", "denormal"], phases: p17, check: check_roundtrip, describe: desc_rt },
];
