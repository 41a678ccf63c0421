//! P22: histories. A register machine runs a random program on live library
//! values; after every step the library must agree with the model machine that
//! has run the same program on exact values, and a live value must be
//! indistinguishable from the same value re-decoded from its bits.

use super::common::*;
use super::dd;
use super::text;
use apf_ops::hist::*;
use apf_ops::{DD, N_TABLE, PAIRS};

enum Want {
    Is(Val, u8, i128),
    /// Either zero is allowed by the specification.
    AnyZero,
    /// One of the two operands (both NaN).
    Either,
    /// The model does not say (only for the text step of a NaN).
    Same,
}

fn step(sp: &Spec, i: &Instr, a: Val, b: Val, c: Val) -> Want {
    let rm = i.rm;
    let s = |x: (Val, u8)| Want::Is(x.0, x.1, 0);
    let v = |x: Val| Want::Is(x, 0, 0);
    let pick = |less: Ordering, nan_wins: bool| {
        if a.is_nan() || b.is_nan() {
            return match (a.is_nan(), b.is_nan()) {
                (true, true) => Want::Either,
                (true, false) => v(if nan_wins { a } else { b }),
                _ => v(if nan_wins { b } else { a }),
            };
        }
        if let (Zero(s), Zero(t)) = (a, b) {
            if s == t {
                return v(a);
            }
            return if nan_wins { v(Zero(less == Ordering::Less)) } else { Want::AnyZero };
        }
        v(if sp.cmp(b, a) == Some(less) { b } else { a })
    };
    match i.op {
        H_ADD => s(sp.add(a, b, rm)),
        H_SUB => s(sp.sub(a, b, rm)),
        H_MUL => s(sp.mul(a, b, rm)),
        H_DIV => s(sp.div(a, b, rm)),
        H_FMA => s(sp.fma(a, b, c, rm)),
        H_FMOD => s(sp.fmod(a, b)),
        H_REM => s(sp.ieee_rem(a, b)),
        H_RINT => s(sp.rint(a, rm)),
        H_UP => s(sp.next_up(a)),
        H_DOWN => s(sp.next_down(a)),
        H_NEG => v(a.flip()),
        H_ABS => v(a.with_sign(false)),
        H_COPYSIGN => v(a.with_sign(b.neg())),
        H_SCALBN => v(sp.scalbn(a, i.n, rm)),
        H_FREXP => {
            let (x, e) = sp.frexp(a);
            Want::Is(x, 0, e as i128)
        }
        H_FROMINT => s(sp.from_int(i.n < 0, i.n.unsigned_abs() as u128, rm)),
        H_MIN => pick(Ordering::Less, false),
        H_MAX => pick(Ordering::Greater, false),
        H_MINIMUM => pick(Ordering::Less, true),
        H_MAXIMUM => pick(Ordering::Greater, true),
        H_TEXT => {
            if a.is_nan() {
                return Want::Same;
            }
            let t = text::display(sp, a, None, None, false);
            let t = if t[0] == "Inf" { "+Inf".to_string() } else { t[0].clone() };
            match text::read(sp, &t, rm) {
                Ok(Some(x)) => s(x),
                _ => Want::Same,
            }
        }
        H_TOINT => {
            let (x, st, exact) = sp.to_sint(a, 2 + (i.n & 0x3f) as u32, rm);
            let (w, st2) = sp.from_int(x < 0, x.unsigned_abs(), rm);
            Want::Is(w, st | st2 << 5, (x << 1) ^ exact as i128)
        }
        H_INV => match sp.inverse(a) {
            Some(x) => Want::Is(x, 0, 1),
            None => v(a),
        },
        _ => unreachable!(),
    }
}

fn pair(f: u8) -> bool {
    apf_ops::half_of(f as usize).is_some()
}

fn init(c: &Case) -> [u128; 4] {
    // Four starting registers from three words: the last one mixes two of them.
    if pair(c.f) {
        let m = dd::start_mask(c.f);
        return [c.a & m, c.b & m, c.c & m, 0];
    }
    let m = gen::sp(c.f).mask();
    [c.a & m, c.b & m, c.c & m, (c.a ^ c.b.rotate_left(7)) & m]
}

/// A program over pairs: every step is judged by the oracles of P25, P26 and P27.
fn check_pairs(c: &Case) -> Res {
    let start = init(c);
    let t = match (apf_ops::f(c.f as usize).hist)(&c.prog, &start) {
        Ok(t) => t,
        Err(m) => return Res::Fail(m),
    };
    let mut regs = start;
    let mut flags = 0u8;
    let mut judged = 0;
    for (k, (i, s)) in c.prog.iter().zip(&t.steps).enumerate() {
        let r = regs;
        match dd::check_step(c.f, i, r[i.a as usize], r[i.b as usize], r[i.c as usize]) {
            (Res::Fail(m), d) => return Res::Fail(format!("step {}: {}: {}", k, d, m)),
            (Res::Ok(_, nt), _) => judged += nt as usize,
            _ => {}
        }
        flags |= s.status & 31;
        regs[i.dst as usize] = s.bits;
    }
    Res::Ok(class(flags), judged >= 3)
}

fn class(flags: u8) -> u8 {
    if flags & INVALID != 0 {
        4
    } else if flags & OVERFLOW != 0 {
        3
    } else if flags & UNDERFLOW != 0 {
        2
    } else {
        (flags & INEXACT != 0) as u8
    }
}

fn check_hist(c: &Case) -> Res {
    if c.f as usize >= N_TABLE || c.prog.iter().any(|i| i.op >= N_HOPS || i.dst > 3 || i.a > 3 || i.b > 3 || i.c > 3 || i.rm > 4) {
        return Res::Skip;
    }
    if pair(c.f) {
        return check_pairs(c);
    }
    let sp = gen::sp(c.f);
    let start = init(c);
    let t = match (apf_ops::f(c.f as usize).hist)(&c.prog, &start) {
        Ok(t) => t,
        Err(m) => return Res::Fail(m),
    };
    let mut regs: Vec<Val> = start.iter().map(|&b| sp.decode(b)).collect();
    let mut flags = 0u8;
    let mut computed = 0;
    for (k, (i, s)) in c.prog.iter().zip(&t.steps).enumerate() {
        let (a, b, x) = (regs[i.a as usize], regs[i.b as usize], regs[i.c as usize]);
        let got = sp.decode(s.bits);
        let bad = match step(sp, i, a, b, x) {
            Want::Is(v, st, extra) => ((sp.encode(v), st, extra) != (s.bits, s.status, s.extra)).then(|| format!("{} status {} extra {}", show(c.f, sp.encode(v)), status_str(st & 31), extra)),
            Want::AnyZero => (!matches!(got, Zero(_))).then(|| "a zero".to_string()),
            Want::Either => (s.bits != sp.encode(a) && s.bits != sp.encode(b)).then(|| "one of the operands".to_string()),
            Want::Same => (got != a || s.status != 0).then(|| "the operand".to_string()),
        };
        if let Some(w) = bad {
            return Res::Fail(format!(
                "step {}: {} of {}, {}, {} {} n={}: got {} status {} extra {}, expected {}",
                k,
                H_NAMES[i.op as usize],
                show(c.f, sp.encode(a)),
                show(c.f, sp.encode(b)),
                show(c.f, sp.encode(x)),
                RM_NAMES[i.rm as usize],
                i.n,
                show(c.f, s.bits),
                status_str(s.status & 31),
                s.extra,
                w
            ));
        }
        flags |= s.status & 31;
        computed += got.is_fin() as usize;
        regs[i.dst as usize] = got;
    }
    Res::Ok(class(flags), computed >= 3)
}

fn gen_hist(r: &mut Rng) -> Case {
    let f = gen::fmt(r);
    let sp = gen::sp(f);
    let a = gen::bits(r, sp);
    let b = gen::related(r, sp, a);
    let c = gen::fbits(r, sp);
    let prog = gen_prog(r, f);
    Case { f, a, b, c, prog, ..Case::default() }
}

fn gen_pairs(r: &mut Rng) -> Case {
    let f = if r.bool() { DD as u8 } else { (PAIRS as u64 + r.below((N_TABLE - PAIRS) as u64)) as u8 };
    let [a, b, c] = dd::gen_start(r, f);
    let prog = gen_prog(r, f);
    Case { f, a, b, c, prog, ..Case::default() }
}

fn gen_prog(r: &mut Rng, f: u8) -> Vec<Instr> {
    let n = 3 + r.below(14);
    let heavy = !pair(f) && gen::sp(f).emax > 2000;
    (0..n)
        .map(|_| {
            let mut op = r.pick(&[
                H_ADD, H_ADD, H_SUB, H_SUB, H_MUL, H_MUL, H_DIV, H_DIV, H_FMA, H_FMA, H_FMOD, H_REM, H_RINT, H_UP, H_DOWN, H_NEG, H_ABS, H_COPYSIGN,
                H_SCALBN, H_FREXP, H_FROMINT, H_MIN, H_MAX, H_TEXT, H_TOINT, H_INV, H_MINIMUM, H_MAXIMUM, H_SCALBN, H_FREXP,
            ]);
            if heavy && matches!(op, H_FMOD | H_REM | H_TEXT) && r.below(150) != 0 {
                // slow on the widest exponent ranges
                op = H_FREXP;
            }
            let n = match op {
                H_SCALBN if pair(f) => dd::gen_exponent(r, f),
                H_SCALBN => match r.below(4) {
                    0 => r.range(-2 * gen::sp(f).emax as i64, 2 * gen::sp(f).emax as i64),
                    1 => r.range(-3 * gen::sp(f).p as i64, 3 * gen::sp(f).p as i64),
                    _ => r.range(-8, 8),
                },
                H_FROMINT => r.u64() as i32 as i64 >> r.below(31),
                _ => r.range(0, 63),
            } as i32;
            Instr { op, dst: r.below(4) as u8, a: r.below(4) as u8, b: r.below(4) as u8, c: r.below(4) as u8, rm: gen::rm(r), n }
        })
        .collect()
}

fn desc_hist(c: &Case) -> String {
    if c.f as usize >= N_TABLE {
        return "invalid".into();
    }
    let s = init(c);
    let p: Vec<String> = c
        .prog
        .iter()
        .map(|i| format!("r{}={}(r{},r{},r{},{},{})", i.dst, H_NAMES.get(i.op as usize).unwrap_or(&"?"), i.a, i.b, i.c, RM_NAMES[i.rm as usize % 5], i.n))
        .collect();
    let show = |x| if pair(c.f) { dd::showp(dd::of(c.f), x) } else { show(c.f, x) };
    format!("r0={}, r1={}, r2={}, r3={}: {}", show(s[0]), show(s[1]), show(s[2]), show(s[3]), p.join("; "))
}

fn p22(e: u64) -> Vec<Phase> {
    vec![slow_phase("random programs", 100_000 * e, |_, r| gen_hist(r)), slow_phase("random programs over pairs", 60_000 * e, |_, r| gen_pairs(r))]
}

pub const PROPS: &[Prop] = &[Prop {
    id: "P22",
    title: "histories of operations",
    rule: "Cases: programs of 3 to 16 operations (23 kinds, every rounding mode) over four registers holding live values of one format (or pair format), starting from structured operands. Non-trivial: at least three steps produced a finite non-zero value.",
    classes: &["all steps exact", "inexact steps", "underflow", "overflow", "invalid operation"],
    phases: p22,
    check: check_hist,
    describe: desc_hist,
}];
