//! P28: every operation returns, for every input.

use super::common::*;
use apf_ops::{half_of, DD, N_IEEE, N_TABLE, PAIRS};

const OPS: [&str; 31] = [
    "add", "sub", "mul", "div", "fma", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "from_u128", "from_i128", "convert",
    "from_str", "to_u128", "to_i128", "display", "scalbn", "frexp", "ilogb", "inverse", "cmp", "min/max", "classify", "qnan/snan", "operators",
    "compound", "is_integer", "cmp_abs_normal", "signs", "history",
];

fn fmask(f: u8) -> u128 {
    match half_of(f as usize) {
        Some(h) => mask(2 * SPECS[h].bits as i32),
        None => gen::sp(f).mask(),
    }
}

/// The result must be an encoding that stays the same when read back.
fn stable(f: u8, bits: u128, what: &str) -> Result<(), String> {
    let r = (apf_ops::f(f as usize).rt)(bits);
    if r != bits {
        return Err(format!("{}: the result {:#x} of {} reads back as {:#x}", what, bits, apf_ops::f(f as usize).name, r));
    }
    Ok(())
}

fn run(c: &Case) -> Result<(u8, bool), String> {
    let o = apf_ops::f(c.f as usize);
    let mut st = 0u8;
    let mut bs = |x: (u128, u8)| -> Result<(), String> {
        st |= x.1;
        stable(c.f, x.0, OPS[c.op as usize])
    };
    let mut nt = true;
    match c.op {
        ADD => bs((o.add)(c.a, c.b, c.rm))?,
        SUB => bs((o.sub)(c.a, c.b, c.rm))?,
        MUL => bs((o.mul)(c.a, c.b, c.rm))?,
        DIV => bs((o.div)(c.a, c.b, c.rm))?,
        FMA => {
            bs((o.fma)(c.a, c.b, c.c, c.rm))?;
            bs((o.fma_default)(c.a, c.b, c.c))?
        }
        FMOD => bs((o.c_fmod)(c.a, c.b))?,
        REM => bs((o.ieee_rem)(c.a, c.b))?,
        RINT => bs((o.rint)(c.a, c.rm))?,
        UP => bs((o.next_up)(c.a))?,
        DOWN => bs((o.next_down)(c.a))?,
        FROMU => {
            bs((o.from_u)(c.a, c.rm))?;
            bs((o.from_u_default)(c.a))?
        }
        FROMI => {
            bs((o.from_i)(c.a as i128, c.rm))?;
            bs((o.from_i_default)(c.a as i128))?
        }
        CONV => {
            let r = apf_ops::conv(c.f as usize, c.g as usize)(c.a, c.rm, c.k & 1 == 1);
            st |= r.1;
            stable(c.g, r.0, "convert")?;
            let r = apf_ops::conv_default(c.f as usize, c.g as usize)(c.a);
            st |= r.1;
            stable(c.g, r.0, "convert")?;
        }
        PARSE => {
            match (o.parse)(&c.s, c.rm) {
                Ok(r) => bs(r)?,
                Err(m) => {
                    nt = false;
                    if m.is_empty() {
                        return Err("error without a message".into());
                    }
                }
            }
            let _ = (o.parse_default)(&c.s);
        }
        14 => {
            let w = c.n.clamp(1, 128) as usize;
            let r = (o.to_u)(c.a, w, c.rm, c.k & 1 == 1);
            st |= r.1 | (o.to_u_default)(c.a, w).1;
            if w < 128 && r.0 >> w != 0 {
                return Err(format!("to_u128_r: {} does not fit {} bits", r.0, w));
            }
        }
        15 => {
            let w = c.n.clamp(1, 128) as usize;
            let r = (o.to_i)(c.a, w, c.rm, c.k & 1 == 1);
            st |= r.1 | (o.to_i_default)(c.a, w).1;
            if r.0 != r.0 << (128 - w) >> (128 - w) {
                return Err(format!("to_i128_r: {} does not fit {} bits", r.0, w));
            }
        }
        16 => {
            let (p, w) = ((c.n > 0).then(|| c.n as usize - 1), (c.k > 1).then(|| (c.k >> 1) as usize - 1));
            let s = (o.display)(c.a, p, w, c.k & 1 == 1);
            let t = (o.to_string)(c.a);
            let d = (o.debug)(c.a);
            if s.is_empty() || t.is_empty() || d.is_empty() {
                return Err("prints as nothing".into());
            }
        }
        17 => {
            let n = c.n as i32;
            stable(c.f, (o.scalbn)(c.a, n, c.rm), "scalbn")?;
            stable(c.f, (o.scalbn_default)(c.a, n), "scalbn")?
        }
        18 => {
            stable(c.f, (o.frexp)(c.a, c.rm).0, "frexp")?;
            stable(c.f, (o.frexp_default)(c.a).0, "frexp")?
        }
        19 => {
            (o.ilogb)(c.a);
        }
        20 => {
            if let Some(x) = (o.inverse)(c.a) {
                stable(c.f, x, "get_exact_inverse")?
            } else {
                nt = false
            }
        }
        21 => {
            let r = (o.rel)(c.a, c.b);
            let e = (o.bitwise_eq)(c.a, c.b);
            if e != (c.a == c.b) && (half_of(c.f as usize).is_some() || !gen::sp(c.f).x87) {
                return Err("bitwise_eq does not compare bits".into());
            }
            let consistent = match r.partial {
                None => !r.eq && !r.lt && !r.le && !r.gt && !r.ge,
                Some(Ordering::Less) => !r.eq && r.lt && r.le && !r.gt && !r.ge,
                Some(Ordering::Equal) => r.eq && !r.lt && r.le && !r.gt && r.ge,
                Some(Ordering::Greater) => !r.eq && !r.lt && !r.le && r.gt && r.ge,
            };
            if !consistent || r.eq == r.ne {
                return Err(format!("inconsistent comparison {:?}", r));
            }
        }
        22 => {
            for k in 0..4 {
                let m = (o.minmax)(k, c.a, c.b);
                stable(c.f, m, "min/max")?
            }
        }
        23 => {
            let k = (o.class)(c.a);
            let one = [k.nan, k.infinite, k.zero, k.finite_non_zero].iter().filter(|&&x| x).count();
            if one != 1 || k.denormal && !k.finite_non_zero || k.signaling && !k.nan || k.finite == (k.nan || k.infinite) || k.non_zero == k.zero {
                return Err(format!("inconsistent classes {:?}", k));
            }
        }
        24 => {
            let p = (c.k & 1 == 1).then_some(c.a);
            for x in [(o.qnan)(p), (o.snan)(p)] {
                stable(c.f, x, "qnan/snan")?;
                if !(o.class)(x).nan {
                    return Err(format!("qnan/snan: {:#x} is not a NaN", x));
                }
            }
        }
        25 => {
            for k in 0..5 {
                bs((o.oper)(k, c.a, c.b))?
            }
        }
        26 => {
            for k in 0..5 {
                stable(c.f, (o.oper_assign)(k, c.a, c.b), "compound assignment")?
            }
        }
        27 => {
            (o.is_integer)(c.a);
        }
        28 => {
            let k = [(o.class)(c.a), (o.class)(c.b)];
            if !k[0].finite_non_zero || !k[1].finite_non_zero {
                return Ok((0, false));
            }
            (o.cmp_abs)(c.a, c.b);
        }
        29 => {
            for x in [(o.neg)(c.a), (o.abs)(c.a), (o.copy_sign)(c.a, c.b)] {
                stable(c.f, x, "sign operation")?
            }
        }
        _ => return Err("no such operation".into()),
    }
    if st & !(INVALID | DIVZERO | OVERFLOW | UNDERFLOW | INEXACT) != 0 {
        return Err(format!("unknown status bits {:#x}", st));
    }
    Ok((c.op, nt))
}

fn check(c: &Case) -> Res {
    if c.f as usize >= N_TABLE || c.op > 29 || c.rm > 4 || (c.op == CONV && (c.f as usize >= N_IEEE || c.g as usize >= N_IEEE)) {
        return Res::Skip;
    }
    let m = fmask(c.f);
    if c.op != FROMU && c.op != FROMI && c.op != 24 && (c.a & !m != 0 || c.b & !m != 0 || c.c & !m != 0) {
        return Res::Skip;
    }
    if c.op == 16 && (c.n > 3000 || c.k > 6000) {
        return Res::Skip;
    }
    match run(c) {
        Ok((k, nt)) => Res::Ok(k, nt),
        Err(m) => Res::Fail(m),
    }
}

fn describe(c: &Case) -> String {
    let s = if c.s.len() > 80 { format!("{:?}... ({} bytes)", c.s.chars().take(40).collect::<String>(), c.s.len()) } else { format!("{:?}", c.s) };
    format!(
        "{} {} a={:#x} b={:#x} c={:#x} {} to={} n={} k={} text={}",
        OPS[c.op as usize % 31],
        apf_ops::f(c.f as usize % N_TABLE).name,
        c.a,
        c.b,
        c.c,
        RM_NAMES[c.rm as usize % 5],
        c.g,
        c.n,
        c.k,
        s
    )
}

/// Any bits at all: structured, uniform, or sparse.
fn any_bits(r: &mut Rng, f: u8) -> u128 {
    let m = fmask(f);
    if let Some(h) = half_of(f as usize) {
        // Two unrelated halves, mostly not a canonical pair.
        let d = &SPECS[h];
        let (sign, p) = (d.bits - 1, d.p as i64);
        let hi = gen::bits(r, d) as u64;
        let lo = match r.below(8) {
            0..=2 => gen::bits(r, d) as u64,
            3 => gen::special(r, d) as u64,
            4 => (hi ^ (r.below(2) << sign) ^ r.below(4)) & d.mask() as u64,
            5 => ((hi as i64).wrapping_sub((r.range(p - 3, p + 3) << (p - 1)) + r.range(-2, 2)) as u64 ^ (r.below(2) << sign)) & d.mask() as u64,
            _ => gen::related(r, d, hi as u128) as u64,
        };
        return hi as u128 | (lo as u128) << d.bits;
    }
    match r.below(8) {
        0 => r.u128() & m,
        1 => (0..r.below(4)).fold(0, |x, _| x | 1u128 << r.below(128)) & m,
        2 => !(0..r.below(4)).fold(0, |x, _| x | 1u128 << r.below(128)) & m,
        3 => gen::special(r, gen::sp(f)),
        _ => gen::bits(r, gen::sp(f)),
    }
}

fn any_i32(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, 1, -1]) as i64,
        1 => r.range(i32::MIN as i64, i32::MAX as i64),
        2 => r.range(i32::MIN as i64, i32::MIN as i64 + 40000),
        3 => r.range(i32::MAX as i64 - 40000, i32::MAX as i64),
        4 => r.range(-40000, 40000),
        _ => r.range(-300, 300),
    }
}

fn gen_op(r: &mut Rng) -> Case {
    let f = match r.below(10) {
        0 | 1 => DD as u8,
        2 => (PAIRS as u64 + r.below((N_TABLE - PAIRS) as u64)) as u8,
        _ => gen::fmt(r),
    };
    let op = loop {
        let op = r.below(30) as u8;
        // (slow in the formats of a huge range)
        if matches!(op, 16 | FMOD | REM | 25 | 26) && matches!(f, 3 | 7 | 12) && r.below(60) != 0 {
            continue;
        }
        if op != PARSE && !(op == CONV && half_of(f as usize).is_some()) {
            break op;
        }
    };
    let a = any_bits(r, f);
    let rel = |r: &mut Rng, a: u128| match r.below(3) {
        0 if (f as usize) < N_IEEE => gen::related(r, gen::sp(f), a),
        1 => a ^ (r.below(4) as u128),
        _ => any_bits(r, f),
    };
    let (b, c3) = (rel(r, a), rel(r, a));
    let mut c = Case { op, f, rm: gen::rm(r), a, b, c: c3, k: r.below(2) as i64, ..Case::default() };
    match op {
        CONV => c.g = r.below(N_IEEE as u64) as u8,
        FROMU | FROMI | 24 => c.a = match r.below(3) {
            0 => r.u128(),
            1 => r.u128() >> r.below(128),
            _ => (1u128 << r.below(128)).wrapping_sub(r.below(3) as u128),
        },
        14 | 15 => c.n = r.range(1, 128),
        16 => {
            c.n = match r.below(4) {
                0 => 0,
                1 => r.range(1, 40),
                2 => r.range(1, 300),
                _ => if r.below(16) == 0 { r.range(1, 2500) } else { r.range(1, 12) },
            };
            c.k = match r.below(4) {
                0 | 1 => r.below(2) as i64,
                2 => r.range(0, 60),
                _ => if r.below(16) == 0 { r.range(0, 5000) } else { r.range(0, 400) },
            };
        }
        17 => c.n = any_i32(r),
        _ => {}
    }
    c
}

/// Arbitrary text: bytes of the alphabet of numerals, other characters, mutations of numerals.
fn gen_text(r: &mut Rng, limit: u64) -> Case {
    let alpha: Vec<char> = "0123456789abcdefxXpPeE.+-_naNifIsty ()\u{663}\u{ff11}\u{e9}\u{1d7d9}\0\n#u'\"".chars().collect();
    let mut s = String::new();
    match r.below(8) {
        0 => {
            for _ in 0..r.below(12) {
                s.push(r.pick(&alpha));
            }
        }
        1 => {
            for _ in 0..r.below(8) {
                s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}'));
            }
        }
        2 => {
            s = r.pick(&["inf", "-inf", "+Inf", "Infinity", "nan", "-NaN", "snan", "nan(12)", "nan(0x7f)", "-snan123", "sNaN(0xffffffffffffffffffffffffffffffffffff)", "nan()", "nan(", "s", "i", "-", "+", "."]).to_string();
        }
        3 => {
            // enormous exponents and runs of digits
            s = format!("{}{}e{}{}", r.pick(&["", "-", "+"]), r.pick(&["0", "1", "9.99", ".5", "0.000", "123456789123456789123456789"]), r.pick(&["", "-", "+"]), r.pick(&["0", "400", "5000", "32768", "65536", "999999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "0000000000000000000000001"]));
        }
        4 => {
            s = format!("{}0x{}p{}{}", r.pick(&["", "-", "+"]), r.pick(&["0", "1", "f.ff", ".8", "0.0008", "123456789abcdef0123456789abcdef0123456789"]), r.pick(&["", "-", "+"]), r.pick(&["0", "400", "5000", "16382", "16494", "32768", "65536", "999999", "2147483647", "2147483648", "4294967296", "9223372036854775808", "99999999999999999999999999"]));
        }
        _ => {
            // well formed, possibly long
            let hex = r.below(3) == 0;
            let n = match r.below(12) {
                0 => r.below(limit),
                1 | 2 => r.below(300),
                _ => 1 + r.below(25),
            };
            let dot = r.below(n + 2);
            if r.bool() {
                s.push('-');
            }
            if hex {
                s.push_str("0x");
            }
            let style = r.below(4);
            for i in 0..n {
                if i == dot {
                    s.push('.');
                }
                let d = match style {
                    0 => 0,
                    1 => if hex { 15 } else { 9 },
                    _ => r.below(if hex { 16 } else { 10 }),
                };
                s.push(char::from_digit(d as u32, 16).unwrap());
            }
            if hex || r.bool() {
                s.push(if hex { 'p' } else { 'e' });
                s.push_str(&r.range(-20000, 20000).to_string());
            }
        }
    }
    // mutate
    if r.below(3) == 0 {
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(3) {
            let i = r.below(v.len() as u64 + 1) as usize;
            match r.below(3) {
                0 => v.insert(i, r.pick(&alpha)),
                1 if i < v.len() => {
                    v.remove(i);
                }
                _ if i < v.len() => v[i] = r.pick(&alpha),
                _ => {}
            }
        }
        s = v.into_iter().collect();
    }
    Case { op: PARSE, f: r.below(N_TABLE as u64) as u8, rm: gen::rm(r), s, ..Case::default() }
}

fn phases(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for f in [5u8, 6, 8, 9] {
        let n = 1u64 << gen::sp(f).bits;
        v.push(full_phase(format!("every binary operation on all pairs of {}", gen::sp(f).name), n * n * 9 * 5, move |i, _| {
            let op = [ADD, SUB, MUL, DIV, FMOD, REM, 21, 22, 25][(i % 9) as usize];
            let i = i / 9;
            Case { op, f, rm: (i % 5) as u8, a: (i / 5 % n) as u128, b: (i / 5 / n) as u128, ..Case::default() }
        }));
    }
    v.push(phase("any operation on any bits", 12_000_000 * e, |_, r| gen_op(r)));
    v.push(Phase { chunk: 64, ..phase("any text", 400_000 * e, |_, r| gen_text(r, 400)) });
    v.push(slow_phase("long text", 400 * e, |_, r| gen_text(r, 6000)));
    v
}

pub const PROPS: &[Prop] = &[Prop {
    id: "P28",
    title: "every operation returns a valid result for every input",
    rule: "Cases: every operation of the API on arbitrary bit patterns of all formats (including encodings no operation produces, and pairs of unrelated doubles), extreme scaling exponents, widths and precisions, and arbitrary, mutated or long text. Non-trivial: the operation has a result to check (text was accepted, an inverse exists, ...).",
    classes: &OPS,
    phases,
    check,
    describe,
}];
