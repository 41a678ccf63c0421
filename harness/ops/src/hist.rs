//! Histories: a small register machine over one format.
//!
//! The registers hold *live* library values (never re-created from bits), so a
//! value that came out of a long chain of operations is used exactly as a client
//! would use it.  After every step each result is also encoded and decoded again,
//! and the step is replayed with the re-decoded operands: both executions must be
//! indistinguishable (bits, status, classification, order, text).

use crate::*;

pub const H_ADD: u8 = 0;
pub const H_SUB: u8 = 1;
pub const H_MUL: u8 = 2;
pub const H_DIV: u8 = 3;
pub const H_FMA: u8 = 4;
pub const H_FMOD: u8 = 5;
pub const H_REM: u8 = 6;
pub const H_RINT: u8 = 7;
pub const H_UP: u8 = 8;
pub const H_DOWN: u8 = 9;
pub const H_NEG: u8 = 10;
pub const H_ABS: u8 = 11;
pub const H_COPYSIGN: u8 = 12;
pub const H_SCALBN: u8 = 13;
pub const H_FREXP: u8 = 14;
pub const H_FROMINT: u8 = 15;
pub const H_MIN: u8 = 16;
pub const H_MAX: u8 = 17;
pub const H_TEXT: u8 = 18;
pub const H_TOINT: u8 = 19;
pub const H_INV: u8 = 20;
pub const H_MINIMUM: u8 = 21;
pub const H_MAXIMUM: u8 = 22;
pub const N_HOPS: u8 = 23;

pub const H_NAMES: [&str; N_HOPS as usize] = [
    "add", "sub", "mul", "div", "fma", "fmod", "rem", "rint", "up", "down", "neg", "abs", "copysign", "scalbn", "frexp",
    "fromint", "min", "max", "text", "toint", "inv", "minimum", "maximum",
];

pub const NREGS: usize = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Instr {
    pub op: u8,
    pub dst: u8,
    pub a: u8,
    pub b: u8,
    pub c: u8,
    pub rm: u8,
    pub n: i32,
}

/// What one step produced: result bits, status bits, and an operation-specific
/// extra word (exponent of frexp, integer of toint, ...).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub bits: u128,
    pub status: u8,
    pub extra: i128,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Trace {
    pub steps: Vec<Step>,
}

fn exec<T: Float>(i: &Instr, a: T, b: T, c: T) -> Result<(T, u8, i128), String> {
    let rm = round(i.rm);
    let s = |x: StatusAnd<T>| (x.value, st(x.status), 0i128);
    Ok(match i.op {
        H_ADD => s(a.add_r(b, rm)),
        H_SUB => s(a.sub_r(b, rm)),
        H_MUL => s(a.mul_r(b, rm)),
        H_DIV => s(a.div_r(b, rm)),
        H_FMA => s(a.mul_add_r(b, c, rm)),
        H_FMOD => s(a.c_fmod(b)),
        H_REM => s(a.ieee_rem(b)),
        H_RINT => s(a.round_to_integral(rm)),
        H_UP => s(a.next_up()),
        H_DOWN => s(a.next_down()),
        H_NEG => (-a, 0, 0),
        H_ABS => (a.abs(), 0, 0),
        H_COPYSIGN => (a.copy_sign(b), 0, 0),
        H_SCALBN => (a.scalbn_r(i.n, rm), 0, 0),
        H_FREXP => {
            let mut e = 0x5a5a5a;
            let v = a.frexp_r(&mut e, rm);
            (v, 0, e as i128)
        }
        H_FROMINT => s(T::from_i128_r(i.n as i128, rm)),
        H_MIN => (a.min(b), 0, 0),
        H_MAX => (a.max(b), 0, 0),
        H_MINIMUM => (a.minimum(b), 0, 0),
        H_MAXIMUM => (a.maximum(b), 0, 0),
        H_TEXT => {
            if a.is_nan() {
                return Ok((a, 0, 0));
            }
            let text = format!("{}", a);
            // "Inf" on its own is written "+Inf" by the parser's grammar.
            let text = if text == "Inf" { "+Inf".to_string() } else { text };
            match T::from_str_r(&text, rm) {
                Ok(v) => s(v),
                Err(e) => return Err(format!("output {:?} of Display is not accepted by the parser: {}", text, e.0)),
            }
        }
        H_TOINT => {
            let mut exact = false;
            let r = a.to_i128_r(2 + (i.n & 0x3f) as usize, rm, &mut exact);
            let v = T::from_i128_r(r.value, rm);
            (v.value, st(r.status) | st(v.status) << 5, (r.value << 1) ^ exact as i128)
        }
        H_INV => match a.get_exact_inverse() {
            Some(v) => (v, 0, 1),
            None => (a, 0, 0),
        },
        _ => unreachable!(),
    })
}

pub fn run<T: Float>(prog: &[Instr], init: &[u128]) -> Result<Trace, String> {
    let mut regs: Vec<T> = init.iter().map(|&b| T::from_bits(b)).collect();
    let mut steps = Vec::with_capacity(prog.len());
    for (k, i) in prog.iter().enumerate() {
        let (a, b, c) = (regs[i.a as usize], regs[i.b as usize], regs[i.c as usize]);
        let (v, status, extra) = exec(i, a, b, c)?;
        let bits = v.to_bits();

        let re = |x: T| T::from_bits(x.to_bits());
        let (v2, status2, extra2) = exec(i, re(a), re(b), re(c))?;
        let bits2 = v2.to_bits();
        if (bits, status, extra) != (bits2, status2, extra2) {
            return Err(format!(
                "step {}: {} gives {:#x} status {} extra {} on the live values but {:#x} status {} extra {} on the same values re-decoded from their bits",
                k, H_NAMES[i.op as usize], bits, status_str(status & 31), extra, bits2, status_str(status2 & 31), extra2
            ));
        }
        // The result itself: the live value and the decoded value must agree on everything observable.
        let w = T::from_bits(bits);
        if w.to_bits() != bits {
            return Err(format!("step {}: {} produced {:#x}, which re-encodes as {:#x}", k, H_NAMES[i.op as usize], bits, w.to_bits()));
        }
        if class_of(v) != class_of(w) {
            return Err(format!(
                "step {}: {} produced {:#x}: classification of the live value {:?} differs from that of the decoded value {:?}",
                k, H_NAMES[i.op as usize], bits, class_of(v), class_of(w)
            ));
        }
        if !v.bitwise_eq(w) || !w.bitwise_eq(v) {
            return Err(format!("step {}: {} produced {:#x}: live value not bitwise_eq to its decoded self", k, H_NAMES[i.op as usize], bits));
        }
        if v.is_integer() != w.is_integer() || v.ilogb() != w.ilogb() {
            return Err(format!("step {}: {} produced {:#x}: is_integer/ilogb differ between live and decoded", k, H_NAMES[i.op as usize], bits));
        }
        for r in &regs {
            if rel_of(v, *r) != rel_of(w, re(*r)) || rel_of(*r, v) != rel_of(re(*r), w) {
                return Err(format!(
                    "step {}: {} produced {:#x}: comparison with {:#x} differs between live and decoded",
                    k, H_NAMES[i.op as usize], bits, r.to_bits()
                ));
            }
        }
        regs[i.dst as usize] = v;
        steps.push(Step { bits, status, extra });
    }
    // Text of every final register.
    for r in &regs {
        // (printing is slow for extreme exponents: sampled)
        if r.is_finite_non_zero() && r.ilogb().unsigned_abs() > 300 && prog.len() % 16 != 5 {
            continue;
        }
        let (x, y) = (format!("{}", r), format!("{}", T::from_bits(r.to_bits())));
        if x != y {
            return Err(format!("final register {:#x}: Display {:?} live, {:?} decoded", r.to_bits(), x, y));
        }
    }
    Ok(Trace { steps })
}
