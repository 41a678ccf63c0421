//! Shared vocabulary: an operation index, its execution by the library and by the model.

pub use crate::case::Case;
pub use crate::engine::{full_phase, phase, slow_phase, Phase, Prop, Res};
pub use crate::gen;
pub use crate::model::{bitlen, mask, Spec, Val, SPECS};
pub use crate::rng::Rng;
pub use apf_ops::{
    status_str, DIVZERO, INEXACT, INVALID, NTA, NTE, OVERFLOW, RM_NAMES, TONEG, TOPOS, TOZERO, UNDERFLOW,
};
pub use std::cmp::Ordering;
pub use Val::*;

pub const ADD: u8 = 0;
pub const SUB: u8 = 1;
pub const MUL: u8 = 2;
pub const DIV: u8 = 3;
pub const FMA: u8 = 4;
pub const FMOD: u8 = 5;
pub const REM: u8 = 6;
pub const RINT: u8 = 7;
pub const UP: u8 = 8;
pub const DOWN: u8 = 9;
pub const FROMU: u8 = 10;
pub const FROMI: u8 = 11;
pub const CONV: u8 = 12;
pub const PARSE: u8 = 13;
pub const NAMES: [&str; 14] = [
    "add", "sub", "mul", "div", "fma", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "from_u128", "from_i128", "convert",
    "from_str",
];

pub fn arity(op: u8) -> usize {
    match op {
        FMA => 3,
        ADD..=DIV | FMOD | REM => 2,
        RINT | UP | DOWN | CONV => 1,
        _ => 0,
    }
}

pub fn show(f: u8, bits: u128) -> String {
    let name = apf_ops::NAMES[f as usize];
    if (f as usize) < SPECS.len() {
        let sp = &SPECS[f as usize];
        let v = match sp.decode(bits) {
            Nan(s, _) => format!("{}{}NaN", if s { "-" } else { "" }, if sp.signaling(sp.decode(bits)) { "s" } else { "" }),
            Inf(s) => (if s { "-Inf" } else { "Inf" }).to_string(),
            Zero(s) => (if s { "-0" } else { "0" }).to_string(),
            Fin(s, m, e) => {
                let t = m.trailing_zeros() as i32;
                format!("{}{:#x}*2^{}", if s { "-" } else { "" }, m >> t, e + t)
            }
        };
        format!("{}[{:#x} = {}]", name, bits, v)
    } else {
        format!("{}[{:#x}]", name, bits)
    }
}

pub fn describe(c: &Case) -> String {
    let op = NAMES.get(c.op as usize).copied().unwrap_or("?");
    let mut args = vec![];
    if arity(c.op) >= 1 {
        args.push(show(c.f, c.a));
    }
    if arity(c.op) >= 2 {
        args.push(show(c.f, c.b));
    }
    if arity(c.op) >= 3 {
        args.push(show(c.f, c.c));
    }
    match c.op {
        FROMU => args.push(format!("{} as {}", c.a, apf_ops::NAMES[c.f as usize])),
        FROMI => args.push(format!("{} as {}", c.a as i128, apf_ops::NAMES[c.f as usize])),
        CONV => args.push(format!("to {}", apf_ops::NAMES[c.g as usize])),
        PARSE => args.push(format!("{:?} as {}", c.s, apf_ops::NAMES[c.f as usize])),
        _ => {}
    }
    format!("{}({}) {}", op, args.join(", "), RM_NAMES[c.rm as usize % 5])
}

pub fn valid(c: &Case) -> bool {
    let nf = SPECS.len();
    if c.f as usize >= nf || c.g as usize >= nf || c.rm > 4 {
        return false;
    }
    let m = SPECS[c.f as usize].mask();
    let n = arity(c.op);
    (n < 1 || c.a & !m == 0) && (n < 2 || c.b & !m == 0) && (n < 3 || c.c & !m == 0)
}

/// Runs the library.
pub fn lib(c: &Case) -> (u128, u8) {
    let o = apf_ops::f(c.f as usize);
    match c.op {
        ADD => (o.add)(c.a, c.b, c.rm),
        SUB => (o.sub)(c.a, c.b, c.rm),
        MUL => (o.mul)(c.a, c.b, c.rm),
        DIV => (o.div)(c.a, c.b, c.rm),
        FMA => (o.fma)(c.a, c.b, c.c, c.rm),
        FMOD => (o.c_fmod)(c.a, c.b),
        REM => (o.ieee_rem)(c.a, c.b),
        RINT => (o.rint)(c.a, c.rm),
        UP => (o.next_up)(c.a),
        DOWN => (o.next_down)(c.a),
        FROMU => (o.from_u)(c.a, c.rm),
        FROMI => (o.from_i)(c.a as i128, c.rm),
        CONV => {
            let r = apf_ops::conv(c.f as usize, c.g as usize)(c.a, c.rm, true);
            (r.0, r.1)
        }
        _ => unreachable!(),
    }
}

/// Format of the result.
pub fn out_fmt(c: &Case) -> u8 {
    if c.op == CONV {
        c.g
    } else {
        c.f
    }
}

/// Runs the model.
pub fn model(c: &Case) -> (Val, u8) {
    let sp = &SPECS[c.f as usize];
    let d = |x| sp.decode(x);
    match c.op {
        ADD => sp.add(d(c.a), d(c.b), c.rm),
        SUB => sp.sub(d(c.a), d(c.b), c.rm),
        MUL => sp.mul(d(c.a), d(c.b), c.rm),
        DIV => sp.div(d(c.a), d(c.b), c.rm),
        FMA => sp.fma(d(c.a), d(c.b), d(c.c), c.rm),
        FMOD => sp.fmod(d(c.a), d(c.b)),
        REM => sp.ieee_rem(d(c.a), d(c.b)),
        RINT => sp.rint(d(c.a), c.rm),
        UP => sp.next_up(d(c.a)),
        DOWN => sp.next_down(d(c.a)),
        FROMU => sp.from_int(false, c.a, c.rm),
        FROMI => {
            let i = c.a as i128;
            sp.from_int(i < 0, i.unsigned_abs(), c.rm)
        }
        CONV => {
            let (v, s, _) = sp.convert(&SPECS[c.g as usize], d(c.a), c.rm);
            (v, s)
        }
        _ => unreachable!(),
    }
}

pub const RESULT_CLASSES: &[&str] = &[
    "special operand",
    "exact normal",
    "inexact normal",
    "exact subnormal",
    "underflow",
    "overflow",
    "exact zero",
    "invalid or division by zero",
];

pub fn result_class(sp: &Spec, v: Val, st: u8) -> u8 {
    if st & (INVALID | DIVZERO) != 0 {
        7
    } else if st & UNDERFLOW != 0 {
        4
    } else {
        match v {
            Nan(..) | Inf(_) => {
                if st & INEXACT != 0 {
                    5
                } else {
                    0
                }
            }
            Zero(_) => {
                if st & INEXACT != 0 {
                    2
                } else {
                    6
                }
            }
            Fin(..) => {
                if st & INEXACT != 0 {
                    2
                } else if sp.is_denormal(v) {
                    3
                } else {
                    1
                }
            }
        }
    }
}

pub fn mismatch(f: u8, got: (u128, u8), want: (u128, u8)) -> String {
    format!(
        "got {} status {}, expected {} status {}",
        show(f, got.0),
        status_str(got.1),
        show(f, want.0),
        status_str(want.1)
    )
}

/// Library against model, bits and status.
pub fn check_op(c: &Case) -> Res {
    if !valid(c) {
        return Res::Skip;
    }
    let of = out_fmt(c);
    let sp = &SPECS[of as usize];
    let want = model(c);
    let wb = (sp.encode(want.0), want.1);
    let got = lib(c);
    if got != wb {
        return Res::Fail(mismatch(of, got, wb));
    }
    Res::Ok(result_class(sp, want.0, want.1), nontrivial(c))
}

/// All operands finite and non-zero.
pub fn nontrivial(c: &Case) -> bool {
    let sp = &SPECS[c.f as usize];
    let n = arity(c.op);
    (n < 1 || sp.decode(c.a).is_fin()) && (n < 2 || sp.decode(c.b).is_fin()) && (n < 3 || sp.decode(c.c).is_fin()) && (n > 0 || c.a != 0)
}

/// Exhaustive (operand pair, rounding mode) phase over one tiny format.
pub fn pairs_phase(ops: &'static [u8], f: u8, modes: u64) -> Phase {
    let n = 1u64 << SPECS[f as usize].bits;
    full_phase(format!("all pairs of {}", SPECS[f as usize].name), n * n * modes * ops.len() as u64, move |i, _| {
        let op = ops[(i % ops.len() as u64) as usize];
        let i = i / ops.len() as u64;
        let rm = i % modes;
        let i = i / modes;
        Case { op, f, rm: rm as u8, a: (i % n) as u128, b: (i / n) as u128, ..Case::default() }
    })
}

/// Exhaustive (operand, rounding mode) phase over one format of at most 19 bits.
pub fn unary_phase(ops: &'static [u8], f: u8, modes: u64) -> Phase {
    let n = 1u64 << SPECS[f as usize].bits;
    full_phase(format!("all values of {}", SPECS[f as usize].name), n * modes * ops.len() as u64, move |i, _| {
        let op = ops[(i % ops.len() as u64) as usize];
        let i = i / ops.len() as u64;
        Case { op, f, rm: (i / n) as u8, a: (i % n) as u128, ..Case::default() }
    })
}
