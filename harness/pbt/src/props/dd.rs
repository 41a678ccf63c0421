//! P25..P27: the double-double format. Values are pairs of doubles; the oracle
//! works on exact sums (integers scaled by 2^1074), on the published algorithms
//! evaluated with the model's correctly rounded double arithmetic and with the
//! processor's doubles, and on the 106-bit model for the remaining operations.

use super::common::*;
use super::text;
use crate::big::Big;

use crate::wide::W;
use apf_ops::{Class, DD};

type Pair = (u64, u64);

/// A format of pairs: the halves, and the format with twice the precision and the
/// same lowest and highest exponents.
pub struct Pf {
    d: &'static Spec,
    f: Spec,
    /// Index in the table of operations.
    idx: usize,
    /// Sign bit of a half.
    s: u64,
    /// The exact values are multiples of 2^-u.
    u: i64,
    specials: [Pair; 16],
}

const fn pf(name: &'static str, half: usize, idx: usize) -> Pf {
    let d = &SPECS[half];
    let emin = d.emin + d.p;
    let f = Spec { name, bits: 0, p: 2 * d.p, emin, emax: d.emax, nan_only: false, x87: false };
    let s = 1 << (d.bits - 1);
    // by fields: exponent, fraction
    let inf = ((1 << (d.bits as i32 - d.p)) - 1) << (d.p - 1);
    let q = 1 << (d.p - 2);
    let one = (d.emax as u64) << (d.p - 1);
    let top = inf - 1;
    // largest: the low half is the largest number below half a unit
    let low = ((2 * d.emax - d.p - 1) as u64) << (d.p - 1) | ((1 << (d.p - 1)) - 2);
    // smallest with full precision
    let full = ((1 + d.p) as u64) << (d.p - 1);
    let specials = [
        (0, 0),
        (s, 0),
        (inf, 0),
        (s | inf, 0),
        (inf | q, 0),
        (s | inf | q, 0),
        (inf | q | (q >> 1), 0),
        (inf | 1, 0),
        (s | inf | (q >> 1), 0),
        (top, low),
        (s | top, s | low),
        (top, 0),
        (1, 0),
        (s | 1, 0),
        (full, 0),
        (one, 0),
    ];
    Pf { d, f, idx, s, u: (d.p - 1 - d.emin) as i64, specials }
}

/// The double-double format, and the same construction over other formats.
static PFS: [Pf; 7] = [
    pf("Double", 2, DD),
    pf("Single", 1, apf_ops::PAIRS),
    pf("BFloat", 4, apf_ops::PAIRS + 1),
    pf("Half", 0, apf_ops::PAIRS + 2),
    pf("Float8E5M2", 5, apf_ops::PAIRS + 3),
    pf("Custom8E4", 9, apf_ops::PAIRS + 4),
    pf("Custom6E3", 8, apf_ops::PAIRS + 5),
];

pub fn of(f: u8) -> &'static Pf {
    PFS.iter().find(|p| p.idx == f as usize).unwrap_or(&PFS[0])
}

fn o(fm: &Pf) -> &'static apf_ops::Ops {
    apf_ops::f(fm.idx)
}
fn pack(fm: &Pf, p: Pair) -> u128 {
    p.0 as u128 | (p.1 as u128) << fm.d.bits
}
fn unpack(fm: &Pf, x: u128) -> Pair {
    let m = mask(fm.d.bits as i32);
    ((x & m) as u64, (x >> fm.d.bits & m) as u64)
}
impl Pf {
    fn dec(&self, x: u64) -> Val {
        self.d.decode(x as u128)
    }
    fn enc(&self, v: Val) -> u64 {
        self.d.encode(v) as u64
    }
    fn native(&self) -> bool {
        self.idx == DD
    }
    fn largest(&self) -> Pair {
        self.specials[9]
    }
    fn full(&self) -> u64 {
        self.specials[14].0
    }
    fn one(&self) -> u64 {
        self.specials[15].0
    }
    fn finf(&self) -> u64 {
        self.specials[2].0
    }
    fn top(&self) -> u64 {
        self.specials[11].0
    }
    fn qmin(&self) -> i64 {
        -self.u
    }
}

// ---------------------------------------------------------------- exact values
/// A signed integer, meaning value * 2^u (or * 2^2u for products).
#[derive(Clone, PartialEq, Eq)]
struct Ex(bool, Big);

impl Ex {
    fn of(fm: &Pf, x: u64) -> Ex {
        match fm.dec(x) {
            Fin(s, m, q) => Ex(s, Big::from(m).shl(q as i64 + fm.u)),
            Zero(s) => Ex(s, Big::zero()),
            _ => unreachable!(),
        }
    }
    fn pair(fm: &Pf, p: Pair) -> Ex {
        if p.0 & !fm.s == 0 {
            return Ex(p.0 != 0, Big::zero());
        }
        Ex::of(fm, p.0).add(&Ex::of(fm, p.1))
    }
    fn add(&self, o: &Ex) -> Ex {
        if self.0 == o.0 {
            return Ex(self.0, self.1.add(&o.1));
        }
        match self.1.cmp(&o.1) {
            Ordering::Equal => Ex(false, Big::zero()),
            Ordering::Greater => Ex(self.0, self.1.sub(&o.1)),
            Ordering::Less => Ex(o.0, o.1.sub(&self.1)),
        }
    }
    fn neg(&self) -> Ex {
        Ex(!self.0, self.1.clone())
    }
    fn mul(&self, o: &Ex) -> Ex {
        Ex(self.0 != o.0, self.1.mul(&o.1))
    }
    fn cmp(&self, o: &Ex) -> Ordering {
        let x = self.add(&o.neg());
        if x.1.is_zero() {
            Ordering::Equal
        } else if x.0 {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
}

/// Whether `r` is `p` scaled by 2^n with each half rounded once: less than two units of the
/// smallest value away (one to the nearest), and on the side that a directed mode asks for.
fn scaled(fm: &Pf, p: Pair, n: i64, r: Pair, rm: u8) -> bool {
    let n = n.max(2 * (fm.qmin() - fm.d.emax as i64) - 8);
    let (mut x, mut y) = (Ex::pair(fm, p), Ex::pair(fm, r));
    let mut unit = Big::from(1).shl(fm.qmin() + fm.u);
    if n >= 0 {
        x.1 = x.1.shl(n);
    } else {
        y.1 = y.1.shl(-n);
        unit = unit.shl(-n);
    }
    let err = y.add(&x.neg());
    if err.1.is_zero() {
        return true;
    }
    match rm {
        TOPOS if err.0 => return false,
        TONEG if !err.0 => return false,
        _ => {}
    }
    if matches!(rm, NTE | NTA) {
        err.1.cmp(&unit) != Ordering::Greater
    } else {
        err.1.cmp(&unit.shl(1)) == Ordering::Less
    }
}

fn special(fm: &Pf, p: Pair) -> bool {
    matches!(fm.dec(p.0), Nan(..) | Inf(_))
}
fn finite(fm: &Pf, p: Pair) -> bool {
    matches!(fm.dec(p.0), Fin(..) | Zero(_))
}
fn normal(fm: &Pf, p: Pair) -> bool {
    fm.dec(p.0).is_fin()
}

/// A pair in the domain: special or zero with a positive zero below, or a finite
/// number whose high half is the double nearest to the sum.
fn canonical(fm: &Pf, p: Pair) -> bool {
    match fm.dec(p.0) {
        Nan(..) | Inf(_) | Zero(_) => p.1 == 0,
        Fin(..) => {
            if fm.native() {
                let hi = f64::from_bits(p.0);
                let lo = f64::from_bits(p.1);
                return lo.is_finite() && p.1 != fm.s && (hi + lo).to_bits() == p.0;
            }
            finite(fm, (p.1, 0)) && p.1 != fm.s && fm.d.add(fm.dec(p.0), fm.dec(p.1), NTE).0 == fm.dec(p.0)
        }
    }
}

pub fn showp(fm: &Pf, x: u128) -> String {
    let p = unpack(fm, x);
    if !fm.native() {
        let v = |x: u64| match fm.dec(x) {
            Fin(s, m, q) => format!("{}{:#x}*2^{}", if s { "-" } else { "" }, m >> m.trailing_zeros(), q + m.trailing_zeros() as i32),
            v => format!("{:?}", v),
        };
        return format!("{} pair ({}[{:#x}], {}[{:#x}])", fm.f.name, v(p.0), p.0, v(p.1), p.1);
    }
    format!("({:e}[{:#018x}], {:e}[{:#018x}])", f64::from_bits(p.0), p.0, f64::from_bits(p.1), p.1)
}

// ------------------------------------------------------------------ generators
fn renorm(fm: &Pf, hi: u64, lo: u64) -> Pair {
    if !fm.native() {
        let (h, l) = (fm.dec(hi), fm.dec(lo));
        if !matches!(h, Fin(..) | Zero(_)) || !matches!(l, Fin(..) | Zero(_)) {
            return (hi, 0);
        }
        let sum = Ex::of(fm, hi).add(&Ex::of(fm, lo));
        if sum.1.is_zero() {
            return (0, 0);
        }
        let (a, _) = fm.d.round_big(sum.0, &sum.1, -fm.u, false, NTE);
        if !matches!(a, Fin(..)) {
            return (hi, 0);
        }
        let rest = sum.add(&Ex::of(fm, fm.enc(a)).neg());
        let b = if rest.1.is_zero() { Zero(false) } else { fm.d.round_big(rest.0, &rest.1, -fm.u, false, NTE).0 };
        let p = (fm.enc(a), fm.enc(b));
        return if canonical(fm, p) { p } else { (hi, 0) };
    }
    let (h, l) = (f64::from_bits(hi), f64::from_bits(lo));
    let s = h + l;
    if !s.is_finite() {
        return (hi, 0);
    }
    if s == 0.0 {
        return (s.to_bits(), 0);
    }
    let bb = s - h;
    let err = (h - (s - bb)) + (l - bb);
    let p = (s.to_bits(), if err == 0.0 { 0 } else { err.to_bits() });
    if canonical(fm, p) {
        p
    } else {
        (hi, 0)
    }
}

fn ranged(fm: &Pf, r: &mut Rng, lo: i32, hi: i32) -> Val {
    let x = r.range(lo as i64, hi as i64) as i32;
    gen::with_exp(r, fm.d, x)
}

fn gen_lo(fm: &Pf, r: &mut Rng, hi: u64) -> Pair {
    let Fin(_, m, q) = fm.dec(hi) else { return (hi, 0) };
    let top = bitlen(m) + q - 1;
    let half = top - fm.d.p; // exponent of half a unit in the last place
    let lo = match r.below(10) {
        0 | 1 => return (hi, 0),
        2..=4 => ranged(fm, r, half - 4, half),
        5 => Fin(r.bool(), 1, (half - r.below(3) as i32).max(fm.qmin() as i32)),
        6 => ranged(fm, r, half - fm.d.p - 7, half),
        7 => ranged(fm, r, fm.qmin() as i32, half.max(fm.qmin() as i32)),
        8 => {
            // just below half a unit
            let v = Fin(r.bool(), mask(fm.d.p) - r.below(4) as u128, half - fm.d.p);
            if half - fm.d.p < fm.qmin() as i32 {
                return (hi, 0);
            }
            v
        }
        _ => ranged(fm, r, half - fm.d.p - 3, half - fm.d.p + 3),
    };
    if half < fm.qmin() as i32 {
        return (hi, 0);
    }
    renorm(fm, hi, fm.enc(lo))
}

fn gen_hi(fm: &Pf, r: &mut Rng) -> u64 {
    let x = match r.below(8) {
        0..=2 => {
            let p = 2 * fm.d.p as i64 + 4;
            r.range(-p, p) as i32
        }
        3 => r.range(fm.qmin(), fm.qmin() + 3 * fm.d.p as i64 + 15) as i32,
        4 => r.range(fm.d.emax as i64 - 2 * fm.d.p as i64 - 17, fm.d.emax as i64) as i32,
        5 => r.range(fm.d.emax as i64 - 8, fm.d.emax as i64) as i32,
        _ => gen::exp(r, fm.d),
    };
    fm.enc(gen::with_exp(r, fm.d, x))
}

fn valid(fm: &Pf, x: u128) -> bool {
    let p = unpack(fm, x);
    pack(fm, p) == x && canonical(fm, p)
}

/// Formats whose pairs can be enumerated.
fn tiny(fm: &Pf) -> bool {
    fm.d.bits <= 8
}
fn enumerate(fm: &Pf) -> std::sync::Arc<Vec<u128>> {
    let v = (0..1u128 << (2 * fm.d.bits)).filter(|&x| canonical(fm, unpack(fm, x))).collect();
    std::sync::Arc::new(v)
}

fn gen_dd(fm: &Pf, r: &mut Rng) -> Pair {
    if r.below(16) == 0 {
        return r.pick(&fm.specials);
    }
    let hi = gen_hi(fm, r);
    gen_lo(fm, r, hi)
}

/// A partner for an addition or a comparison.
fn gen_near(fm: &Pf, r: &mut Rng, p: Pair) -> Pair {
    let Fin(s, m, q) = fm.dec(p.0) else { return gen_dd(fm, r) };
    let top = bitlen(m) + q - 1;
    let (hi, lo) = match r.below(10) {
        0 => return gen_dd(fm, r),
        1 => p,
        2 => (p.0, gen_lo(fm, r, p.0).1),
        3 => (gen::nudge(fm.d, p.0 as u128, r.range(-2, 2)) as u64, p.1),
        4 => {
            let x = gen::nudge(fm.d, p.0 as u128, r.range(-2, 2)) as u64;
            gen_lo(fm, r, x)
        }
        5 => (p.0, p.1 ^ fm.s),
        6 => {
            // comparable to the low half
            let Fin(_, m, q) = fm.dec(p.1) else { return gen_dd(fm, r) };
            let x = bitlen(m) + q - 1 + r.range(-3, 3) as i32;
            let h = fm.enc(gen::with_exp(r, fm.d, x));
            gen_lo(fm, r, h)
        }
        _ => {
            let x = top + { let p = 2 * fm.d.p as i64 + 4; r.range(-p, p) as i32 };
            let h = fm.enc(gen::with_exp(r, fm.d, x));
            gen_lo(fm, r, h)
        }
    };
    let lo = if lo & !fm.s == 0 { 0 } else { lo };
    let p = if canonical(fm, (hi, lo)) { (hi, lo) } else { renorm(fm, hi, lo) };
    let _ = s;
    if r.bool() {
        negate(fm, p)
    } else {
        p
    }
}

fn negate(fm: &Pf, p: Pair) -> Pair {
    (p.0 ^ fm.s, if p.1 & !fm.s == 0 { p.1 } else { p.1 ^ fm.s })
}

fn gen_scaled(fm: &Pf, r: &mut Rng, p: Pair, div: bool) -> Pair {
    let Fin(_, m, q) = fm.dec(p.0) else { return gen_dd(fm, r) };
    let top = bitlen(m) + q - 1;
    let t = match r.below(6) {
        0 => r.range(fm.qmin() - 6, fm.f.emin as i64 + 9) as i32,
        1 => r.range(fm.d.emax as i64 - 4, fm.d.emax as i64 + 2) as i32,
        2 => 0,
        3 => r.range(fm.f.emin as i64 - 1, fm.f.emin as i64 + 9) as i32,
        _ => {
            let x = (fm.d.emax * 4 / 5) as i64;
            r.range(-x, x) as i32
        }
    };
    let x = if div { top - t } else { t - top };
    if !(fm.qmin()..=fm.d.emax as i64).contains(&(x as i64)) {
        return gen_dd(fm, r);
    }
    let h = fm.enc(gen::with_exp(r, fm.d, x));
    gen_lo(fm, r, h)
}

// ------------------------------------------- P25 representation, order, classes
const CLS: &[&str] = &["special or zero", "single double", "pair, same signs", "pair, opposite signs", "arbitrary bits", "constants"];

fn cls(fm: &Pf, p: Pair) -> u8 {
    if !normal(fm, p) {
        0
    } else if p.1 & !fm.s == 0 {
        1
    } else {
        2 + ((p.0 ^ p.1) & fm.s != 0) as u8
    }
}

fn check_repr(c: &Case) -> Res {
    let fm = of(c.f);
    let o = o(fm);
    match c.op {
        0 => {
            // any bits come back
            if c.a & !mask(2 * fm.d.bits as i32) != 0 {
                return Res::Skip;
            }
            let got = (o.rt)(c.a);
            if got != c.a {
                return Res::Fail(format!("from_bits/to_bits: {:#x} for {:#x}", got, c.a));
            }
            if let Err(e) = check_halves(fm, o, c.a) {
                return Res::Fail(e);
            }
            return Res::Ok(4, true);
        }
        1 => {
            let want = apf_ops::Consts {
                bits: 2 * fm.d.bits as usize,
                precision: fm.f.p as usize,
                max_exp: fm.f.emax,
                min_exp: fm.f.emin,
                zero: 0,
                default: 0,
                infinity: fm.finf() as u128,
                nan: fm.specials[4].0 as u128,
                smallest: 1,
                largest: pack(fm, fm.largest()),
                smallest_normalized: fm.full() as u128,
                unlike_decoded: false,
            };
            if fm.native() {
                assert_eq!((want.precision, want.max_exp, want.min_exp, want.infinity, want.nan), (106, 1023, -969, 0x7ff0 << 48, 0x7ff8 << 48));
                assert_eq!((want.largest, want.smallest_normalized), (0x7c8f_ffff_ffff_fffe_7fef_ffff_ffff_ffff, 0x0360 << 48));
            }
            let got = (o.consts)();
            if got != want {
                return Res::Fail(format!("got {:x?}, expected {:x?}", got, want));
            }
            let pl = (c.n != 0).then_some(c.a);
            let (q, s) = ((o.qnan)(pl), (o.snan)(pl));
            let (wq, ws) = (fm.d.encode(fm.d.qnan(pl)), fm.d.encode(fm.d.snan(pl)));
            if q != wq || s != ws {
                return Res::Fail(format!("qnan/snan({:?}): {:#x} {:#x}, expected {:#x} {:#x}", pl, q, s, wq, ws));
            }
            return Res::Ok(5, true);
        }
        _ => {}
    }
    let (p, q) = (unpack(fm, c.a), unpack(fm, c.b));
    if !valid(fm, c.a) || !valid(fm, c.b) {
        return Res::Skip;
    }
    let (a, b) = (c.a, c.b);
    macro_rules! t {
        ($what:expr, $got:expr, $want:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return Res::Fail(format!("{}: got {:x?}, expected {:x?}", $what, g, w));
            }
        };
    }
    // Signs.
    let s = fm.s as u128;
    let np = negate(fm, p);
    t!("neg", (o.neg)(a), pack(fm, np));
    t!("neg twice", (o.neg)((o.neg)(a)), a);
    t!("abs", (o.abs)(a), if p.0 & fm.s != 0 { pack(fm, np) } else { a });
    t!("copy_sign", (o.copy_sign)(a, b), if (a ^ b) & s != 0 { pack(fm, np) } else { a });
    // Classification.
    let v = fm.dec(p.0);
    let fin = v.is_fin();
    // Fewer than 106 bits of precision are left when either half is subnormal.
    let den = fin && (fm.d.is_denormal(v) || fm.d.is_denormal(fm.dec(p.1)));
    let zero = matches!(v, Zero(_));
    let inf = matches!(v, Inf(_));
    let neg = v.neg();
    let ap = if neg { np } else { p };
    let want = Class {
        cat: v.cat(),
        negative: neg,
        normal: fin && !den,
        finite: fin || zero,
        zero,
        denormal: den,
        infinite: inf,
        nan: v.is_nan(),
        signaling: fm.d.signaling(v),
        non_zero: !zero,
        finite_non_zero: fin,
        pos_zero: zero && !neg,
        neg_zero: zero && neg,
        pos_inf: inf && !neg,
        neg_inf: inf && neg,
        smallest: ap == (1, 0),
        smallest_normalized: ap == (fm.full(), 0),
        largest: ap == fm.largest(),
    };
    t!("classification", (o.class)(a), want);
    // Order: that of the exact sums.
    let cmp = if v.is_nan() || fm.dec(q.0).is_nan() {
        None
    } else if special(fm, p) || special(fm, q) {
        let rank = |p: Pair| match fm.dec(p.0) {
            Inf(s) => 1 - 2 * s as i32,
            _ => 0,
        };
        Some(rank(p).cmp(&rank(q)))
    } else {
        Some(Ex::pair(fm, p).cmp(&Ex::pair(fm, q)))
    };
    let w = apf_ops::Rel {
        partial: cmp,
        eq: cmp == Some(Ordering::Equal),
        ne: cmp != Some(Ordering::Equal),
        lt: cmp == Some(Ordering::Less),
        le: matches!(cmp, Some(Ordering::Less | Ordering::Equal)),
        gt: cmp == Some(Ordering::Greater),
        ge: matches!(cmp, Some(Ordering::Greater | Ordering::Equal)),
    };
    t!("comparison", (o.rel)(a, b), w);
    t!("bitwise_eq", (o.bitwise_eq)(a, b), a == b);
    t!("bitwise_eq with itself", (o.bitwise_eq)(a, a), true);
    // A half's sign, also that of a zero, or any other single bit.
    let hb = 2 * fm.d.bits as u32;
    for bit in [hb / 2 - 1, hb - 1, 0, hb / 2, c.n as u32 % hb] {
        t!(format!("bitwise_eq, bit {} flipped", bit), (o.bitwise_eq)(a, a ^ 1 << bit), false);
    }
    if normal(fm, p) && normal(fm, q) {
        t!("cmp_abs_normal", (o.cmp_abs)(a, b), Ex::pair(fm, p).1.cmp(&Ex::pair(fm, q).1));
    }
    for (k, name) in ["min", "max", "minimum", "maximum"].iter().enumerate() {
        let got = (o.minmax)(k as u8, a, b);
        let ok: &[u128] = match (v.is_nan(), fm.dec(q.0).is_nan(), k) {
            (true, true, _) => &[a, b],
            (true, false, 0 | 1) | (false, true, 2 | 3) => &[b],
            (false, true, 0 | 1) | (true, false, 2 | 3) => &[a],
            _ => {
                let want = if k % 2 == 0 { Ordering::Less } else { Ordering::Greater };
                if zero && matches!(fm.dec(q.0), Zero(_)) {
                    if k < 2 {
                        &[a, b]
                    } else if neg == (k == 2) {
                        &[a]
                    } else {
                        &[b]
                    }
                } else if cmp == Some(want) {
                    &[a]
                } else {
                    &[b]
                }
            }
        };
        if !ok.contains(&got) {
            return Res::Fail(format!("{}: got {}, expected {}", name, showp(fm, got), showp(fm, ok[0])));
        }
    }
    // Integers.
    let int = zero || fin && {
        let x = Ex::pair(fm, p).1;
        x.is_zero() || x.trailing_zeros() >= fm.u
    };
    t!("is_integer", (o.is_integer)(a), int);
    // ilogb: exponent of the high half.
    let il = match v {
        Nan(..) => i32::MIN,
        Inf(_) => i32::MAX,
        Zero(_) => i32::MIN + 1,
        Fin(_, m, x) => bitlen(m) + x - 1,
    };
    t!("ilogb", (o.ilogb)(a), il);
    // scalbn scales the sum exactly while nothing leaves the range of a double.
    let n = c.n.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
    let sc = (o.scalbn)(a, n, c.rm);
    if c.rm == NTE {
        t!("scalbn (default)", (o.scalbn_default)(a, n), sc);
    }
    let scp = unpack(fm, sc);
    if !normal(fm, p) {
        let w = if v.is_nan() { fm.enc(fm.d.quiet(v)) } else { p.0 };
        t!("scalbn of a special", sc, w as u128);
    } else {
        let fits = |x: u64| match fm.dec(x) {
            Fin(_, m, q) => {
                let t = m.trailing_zeros() as i64;
                let (lo, hi) = (q as i64 + t + n as i64, bitlen(m) as i64 + q as i64 - 1 + n as i64);
                lo >= fm.qmin() && hi <= fm.d.emax as i64
            }
            _ => true,
        };
        if fits(p.0) && fits(p.1) {
            let (x, y) = (Ex::pair(fm, p), Ex::pair(fm, scp));
            let same = if n >= 0 { x.0 == y.0 && x.1.shl(n as i64) == y.1 } else { x.0 == y.0 && y.1.shl(-(n as i64)) == x.1 };
            if !same || !canonical(fm, scp) {
                return Res::Fail(format!("scalbn by {}: got {}", n, showp(fm, sc)));
            }
        } else {
            let hi = fm.d.scalbn(v, n, c.rm);
            if finite(fm, (fm.enc(hi), 0)) && !finite(fm, scp) || !finite(fm, (fm.enc(hi), 0)) && fm.enc(hi) != scp.0 {
                return Res::Fail(format!("scalbn by {}: got {}", n, showp(fm, sc)));
            }
            if !finite(fm, scp) && scp.1 != 0 {
                return Res::Fail(format!("scalbn by {}: infinity with a low half: {}", n, showp(fm, sc)));
            }
            if finite(fm, scp) && il as i64 + n as i64 <= fm.d.emax as i64 && !scaled(fm, p, n as i64, scp, c.rm) {
                return Res::Fail(format!("scalbn by {}: bits were lost that the halves can hold: {}", n, showp(fm, sc)));
            }
        }
    }
    // frexp: fraction * 2^exp is the operand (as long as the low half survives the scaling).
    let (fr, x) = (o.frexp)(a, c.rm);
    if c.rm == NTE {
        t!("frexp (default)", (o.frexp_default)(a), (fr, x));
    }
    let wx = match v {
        Nan(..) => i32::MIN,
        Inf(_) => i32::MAX,
        Zero(_) => 0,
        Fin(_, m, x) => bitlen(m) + x,
    };
    t!("frexp exponent", x, wx);
    if !fin {
        let w = if v.is_nan() { fm.enc(fm.d.quiet(v)) } else { p.0 };
        t!("frexp of a special", fr, w as u128);
    } else {
        let fp = unpack(fm, fr);
        let lowfits = match fm.dec(p.1) {
            Fin(_, m, q) => q as i64 + m.trailing_zeros() as i64 - x as i64 >= fm.qmin(),
            _ => true,
        };
        if !finite(fm, fp) {
            return Res::Fail(format!("frexp: fraction {}", showp(fm, fr)));
        }
        if lowfits {
            let (u, w) = (Ex::pair(fm, p), Ex::pair(fm, fp));
            let same = if x >= 0 { w.1.shl(x as i64) == u.1 } else { u.1.shl(-(x as i64)) == w.1 };
            if !same || u.0 != w.0 {
                return Res::Fail(format!("frexp: {} * 2^{} is not the operand", showp(fm, fr), x));
            }
        } else if !scaled(fm, p, -(x as i64), fp, c.rm) {
            return Res::Fail(format!("frexp: {} loses bits that the halves can hold", showp(fm, fr)));
        }
    }
    Res::Ok(cls(fm, p), fin)
}

/// What holds for any two halves, whether or not the upper one is the rounded sum.
fn check_halves(fm: &Pf, o: &apf_ops::Ops, a: u128) -> Result<(), String> {
    let p = unpack(fm, a);
    let (v, lo) = (fm.dec(p.0), fm.dec(p.1));
    let k = (o.class)(a);
    // A number is normal when the sum of its halves rounds to the upper one, and neither is denormal.
    let fin = v.is_fin();
    let tiny = |x| matches!(x, Fin(..)) && fm.d.is_denormal(x);
    let den = fin
        && (tiny(v) || tiny(lo) || matches!(lo, Nan(..) | Inf(_)) || fm.enc(fm.d.add(v, lo, NTE).0) != p.0);
    let neg = p.0 & fm.s != 0;
    let got = (k.cat, k.negative, k.denormal, k.normal, k.signaling, k.finite_non_zero);
    let want = (v.cat(), neg, den, fin && !den, fm.d.signaling(v), fin);
    if got != want {
        return Err(format!("category, sign, denormal, normal, signaling, finite_non_zero: {:?}, expected {:?}", got, want));
    }
    let n = unpack(fm, (o.neg)(a));
    if n.0 != p.0 ^ fm.s || (n.1 ^ p.1) & !fm.s != 0 || matches!(lo, Fin(..)) && n.1 == p.1 {
        return Err(format!("neg: {}", showp(fm, pack(fm, n))));
    }
    let abs = (o.abs)(a);
    if abs != if neg { pack(fm, n) } else { a } {
        return Err(format!("abs: {}", showp(fm, abs)));
    }
    if !(o.bitwise_eq)(a, a) {
        return Err("not bitwise equal to itself".into());
    }
    for bit in 0..2 * fm.d.bits {
        if (o.bitwise_eq)(a, a ^ 1 << bit) {
            return Err(format!("bitwise equal with bit {} flipped", bit));
        }
    }
    Ok(())
}

/// Halves that overlap, touch, cancel or are apart, most of which no operation returns.
fn gen_halves(fm: &Pf, r: &mut Rng) -> Pair {
    let m = mask(fm.d.bits as i32) as u64;
    let hi = match r.below(4) {
        0 => r.u64() & m,
        1 => gen_dd(fm, r).0,
        _ => gen_hi(fm, r),
    };
    let Fin(_, sig, q) = fm.dec(hi) else { return (hi, r.u64() & m) };
    let half = bitlen(sig) + q - 1 - fm.d.p;
    let lo = match r.below(6) {
        0 => r.u64() & m,
        1 => r.pick(&[fm.s, 0, 1, fm.s | 1, hi, hi ^ fm.s]),
        2 => gen_dd(fm, r).0,
        // Half a unit, or close to it.
        3 if half >= fm.qmin() as i32 => gen::nudge(fm.d, fm.enc(Fin(r.bool(), 1, half)) as u128, r.range(-1, 1)) as u64,
        _ => fm.enc(ranged(fm, r, half - 3, half + 3)),
    };
    (hi, lo)
}

fn gen_repr(fm: &Pf, r: &mut Rng) -> Case {
    let f = fm.idx as u8;
    if r.below(12) == 0 {
        return Case { op: 0, f, a: pack(fm, gen_halves(fm, r)), ..Case::default() };
    }
    let a = gen_dd(fm, r);
    let b = gen_near(fm, r, a);
    let il = match fm.dec(a.0) {
        Fin(_, m, q) => (bitlen(m) + q - 1) as i64,
        _ => 0,
    };
    let n = match r.below(6) {
        0 => fm.d.emax as i64 - il + r.range(-2, 2),
        1 => fm.d.emin as i64 - il + r.range(-(fm.d.p as i64) - 7, 2 * fm.d.p as i64 + 14),
        2 => r.u64() as i32 as i64,
        _ => r.range(-200, 200),
    };
    Case { op: 2, f, a: pack(fm, a), b: pack(fm, b), n, rm: gen::rm(r), ..Case::default() }
}

fn desc_repr(c: &Case) -> String {
    let fm = of(c.f);
    match c.op {
        0 => format!("{:#x}", c.a),
        1 => "constants".into(),
        _ => format!("{} against {}, n = {} {}", showp(fm, c.a), showp(fm, c.b), c.n, RM_NAMES[c.rm as usize % 5]),
    }
}

fn p25(e: u64) -> Vec<Phase> {
    let mut v = vec![];
    for fm in &PFS {
        let f = fm.idx as u8;
        let w = if fm.native() { 1 } else { 6 };
        let n = fm.f.name;
        v.push(full_phase(format!("{} pairs: constants and NaN constructors", n), 130, move |i, _| Case {
            op: 1,
            f,
            n: (i > 0) as i64,
            a: if i > 0 { 1u128.rotate_left(i as u32 - 1) } else { 0 },
            ..Case::default()
        }));
        v.push(full_phase(format!("special values of {} pairs", n), 256, move |i, _| Case {
            op: 2,
            f,
            a: pack(fm, fm.specials[i as usize % 16]),
            b: pack(fm, fm.specials[i as usize / 16]),
            ..Case::default()
        }));
        v.push(phase(format!("{} pairs: structured operands", n), 6_000_000 * e / w, |_, r| gen_repr(fm, r)));
        if tiny(fm) {
            let all = enumerate(fm);
            let n = all.len() as u64;
            v.push(full_phase(format!("{} pairs: every operand", fm.f.name), n * 8 * 5, move |i, r| Case {
                op: 2,
                f,
                rm: (i % 5) as u8,
                a: all[(i / 40) as usize],
                b: all[r.below(n) as usize],
                n: r.range(-40, 40),
                ..Case::default()
            }));
        }
    }
    v
}

// --------------------------------------------------------- P26 add, sub, multiply
/// Arithmetic on halves under a rounding mode, accumulating flags.
struct Fp<'a> {
    fm: &'a Pf,
    rm: u8,
    st: u8,
}
impl Fp<'_> {
    fn add(&mut self, a: u64, b: u64) -> u64 {
        let (v, s) = self.fm.d.add(self.fm.dec(a), self.fm.dec(b), self.rm);
        self.st |= s;
        self.fm.enc(v)
    }
    fn sub(&mut self, a: u64, b: u64) -> u64 {
        let (v, s) = self.fm.d.sub(self.fm.dec(a), self.fm.dec(b), self.rm);
        self.st |= s;
        self.fm.enc(v)
    }
    fn mul(&mut self, a: u64, b: u64) -> u64 {
        let (v, s) = self.fm.d.mul(self.fm.dec(a), self.fm.dec(b), self.rm);
        self.st |= s;
        self.fm.enc(v)
    }
    fn fma(&mut self, a: u64, b: u64, c: u64) -> u64 {
        let (v, s) = self.fm.d.fma(self.fm.dec(a), self.fm.dec(b), self.fm.dec(c), self.rm);
        self.st |= s;
        self.fm.enc(v)
    }
}

/// Linnainmaa's doubled-precision addition of finite non-zero pairs.
fn ref_add(fm: &Pf, (a, aa): Pair, (c, cc): Pair, rm: u8) -> (Pair, u8) {
    let mut f = Fp { fm, rm, st: 0 };
    let z = f.add(a, c);
    let fin = |x: u64| finite(fm, (x, 0));
    if !fin(z) {
        // The high halves overflow: the low halves may bring the sum back.
        let mut f = Fp { fm, rm, st: 0 };
        let bigger_a = a & !fm.s > c & !fm.s;
        let (first, second) = if bigger_a { (c, a) } else { (a, c) };
        let z = f.add(cc, aa);
        let z = f.add(z, first);
        let z = f.add(z, second);
        if !fin(z) {
            return ((z, 0), f.st);
        }
        let zz = f.add(aa, cc);
        let l = f.sub(second, z);
        let l = f.add(l, first);
        let l = f.add(l, zz);
        return ((z, l), f.st);
    }
    // The order that keeps the difference finite.
    let (a, c) = if fin(Fp { fm, rm, st: 0 }.sub(a, z)) { (a, c) } else { (c, a) };
    let q = f.sub(a, z);
    let zz = f.add(q, c);
    let t = f.add(q, z);
    let t = f.sub(t, a) ^ fm.s;
    let zz = f.add(zz, t);
    let zz = f.add(zz, aa);
    let zz = f.add(zz, cc);
    if zz == 0 {
        return ((z, 0), 0);
    }
    let hi = f.add(z, zz);
    if !fin(hi) {
        return ((hi, 0), f.st);
    }
    let lo = f.sub(z, hi);
    let lo = f.add(lo, zz);
    ((hi, lo), f.st)
}

fn ref_mul(fm: &Pf, (a, b): Pair, (c, dd): Pair, rm: u8) -> (Pair, u8) {
    let mut f = Fp { fm, rm, st: 0 };
    let t = f.mul(a, c);
    if !normal(fm, (t, 0)) {
        return ((t, 0), f.st);
    }
    let tau = f.fma(a, c, t ^ fm.s);
    let v = f.mul(a, dd);
    let w = f.mul(b, c);
    let v = f.add(v, w);
    let tau = f.add(tau, v);
    let u = f.add(t, tau);
    if !finite(fm, (u, 0)) {
        return ((u, 0), f.st);
    }
    let t = f.sub(t, u);
    let lo = f.add(t, tau);
    ((u, lo), f.st)
}

/// The same on the processor's doubles (nearest even only).
fn native_add((a, aa): Pair, (c, cc): Pair) -> Pair {
    let [a, aa, c, cc] = [a, aa, c, cc].map(f64::from_bits);
    let z = a + c;
    if !z.is_finite() {
        let (first, second) = if a.abs() > c.abs() { (c, a) } else { (a, c) };
        let z = cc + aa + first + second;
        if !z.is_finite() {
            return (z.to_bits(), 0);
        }
        return (z.to_bits(), (second - z + first + (aa + cc)).to_bits());
    }
    let (a, c) = if (a - z).is_finite() { (a, c) } else { (c, a) };
    let q = a - z;
    let zz = q + c + -((q + z) - a) + aa + cc;
    if zz.to_bits() == 0 {
        return (z.to_bits(), 0);
    }
    let hi = z + zz;
    if !hi.is_finite() {
        return (hi.to_bits(), 0);
    }
    (hi.to_bits(), (z - hi + zz).to_bits())
}
fn native_mul((a, b): Pair, (c, dd): Pair) -> Pair {
    let [a, b, c, dd] = [a, b, c, dd].map(f64::from_bits);
    let t = a * c;
    if !t.is_finite() || t == 0.0 {
        return (t.to_bits(), 0);
    }
    let tau = f64::mul_add(a, c, -t) + (a * dd + b * c);
    let u = t + tau;
    if !u.is_finite() {
        return (u.to_bits(), 0);
    }
    (u.to_bits(), (t - u + tau).to_bits())
}

const ARITH: &[&str] = &["special operand", "exact", "rounded", "cancellation", "overflow", "tiny result"];

fn check_arith(c: &Case) -> Res {
    let fm = of(c.f);
    let (p, q) = (unpack(fm, c.a), unpack(fm, c.b));
    if !valid(fm, c.a) || !valid(fm, c.b) || c.rm > 4 || c.op > MUL {
        return Res::Skip;
    }
    let o = o(fm);
    let got = match c.op {
        ADD => (o.add)(c.a, c.b, c.rm),
        SUB => (o.sub)(c.a, c.b, c.rm),
        _ => (o.mul)(c.a, c.b, c.rm),
    };
    if c.rm == NTE {
        let x = (o.oper)(c.op, c.a, c.b);
        if x != got || (o.oper_assign)(c.op, c.a, c.b) != got.0 {
            return Res::Fail(format!("operator: {} {} against {} {}", showp(fm, x.0), status_str(x.1), showp(fm, got.0), status_str(got.1)));
        }
    }
    let g = unpack(fm, got.0);
    let fail = |m: &str| Res::Fail(format!("{}: got {} {}", m, showp(fm, got.0), status_str(got.1)));
    let (x, y) = (fm.dec(p.0), fm.dec(q.0));
    let y = if c.op == SUB { y.flip() } else { y };
    if !x.is_fin() || !y.is_fin() {
        let upper = |v: (Val, u8)| ((fm.enc(v.0), 0), v.1);
        let f = &fm.d;
        let want = match (x, y) {
            (Inf(s), Inf(t)) if c.op != MUL && s != t => {
                // the sign of this NaN is not specified
                let abs = upper(f.sub(Inf(false), Inf(false), NTE));
                if ((g.0 & !fm.s, g.1), got.1) != abs {
                    return fail("expected NaN INVALID_OP");
                }
                return Res::Ok(0, false);
            }
            _ if c.op == MUL => upper(f.mul(x, y, c.rm)),
            (Nan(..), _) | (_, Nan(..)) | (Zero(_), Zero(_)) => upper(f.add(x, y, c.rm)),
            (Inf(_), _) => (p, 0),
            (Zero(_), _) | (_, Inf(_)) => (if c.op == SUB { negate(fm, q) } else { q }, 0),
            _ => (p, 0),
        };
        if (g, got.1) != want {
            return fail(&format!("expected {} {}", showp(fm, pack(fm, want.0)), status_str(want.1)));
        }
        return Res::Ok(0, false);
    }
    let q2 = if c.op == SUB { negate(fm, q) } else { q };
    let want = if c.op == MUL { ref_mul(fm, p, q2, c.rm) } else { ref_add(fm, p, q2, c.rm) };
    if want.0 != g {
        return fail(&format!("the reference algorithm gives {}", showp(fm, pack(fm, want.0))));
    }
    if want.1 != got.1 {
        return fail(&format!("the reference algorithm gives status {}", status_str(want.1)));
    }
    if c.rm == NTE && fm.native() {
        let n = if c.op == MUL { native_mul(p, q2) } else { native_add(p, q2) };
        if n != g {
            return fail(&format!("the processor's doubles give {}", showp(fm, pack(fm, n))));
        }
    }
    if fm.dec(g.0).is_nan() {
        return fail("NaN from finite operands");
    }
    if !finite(fm, g) {
        // overflow: the exact result is at least about the largest value
        if got.1 & OVERFLOW == 0 {
            return fail("infinite result of finite operands without OVERFLOW");
        }
        if g.1 != 0 {
            return fail("infinity with a low half");
        }
        return Res::Ok(4, true);
    }
    // Distance from the exact result.
    let (ep, eq, eg) = (Ex::pair(fm, p), Ex::pair(fm, q2), Ex::pair(fm, g));
    let (exact, bound, eg) = if c.op == MUL {
        let x = ep.mul(&eq);
        let k = 2 * fm.d.p as i64 - if matches!(c.rm, NTE | NTA) { 5 } else { 7 };
        let b = x.1.shr(k.max(0)).0.add(&Big::from(16).shl(fm.u));
        (x, b, Ex(eg.0, eg.1.shl(fm.u)))
    } else {
        let k = 2 * fm.d.p as i64 - if matches!(c.rm, NTE | NTA) { 4 } else { 6 };
        let b = ep.1.add(&eq.1).shr(k.max(0)).0.add(&Big::from(4));
        (ep.add(&eq), b, eg)
    };
    let err = eg.add(&exact.neg());
    // Directed rounding clamps a sum (or product) of the upper halves past the
    // largest double to it, and the algorithm then doesn't see the overflow.
    let huge = |x: u64| matches!(fm.dec(x), Fin(_, m, q) if bitlen(m) + q > fm.d.emax - 1);
    let clamped = !matches!(c.rm, NTE | NTA) && (huge(g.0) || c.op != MUL && (huge(p.0) || huge(q2.0)));
    if !clamped && err.1.cmp(&bound) == Ordering::Greater {
        let rel = exact.1.bitlen() - err.1.bitlen();
        return fail(&format!("too far from the exact result (about 2^-{} relative)", rel));
    }
    if c.rm == NTE && normal(fm, g) && !canonical(fm, (g.0, if g.1 == fm.s { 0 } else { g.1 })) {
        return fail("the halves overlap");
    }
    Res::Ok(
        if err.1.is_zero() {
            1
        } else if c.op != MUL && exact.1.bitlen() + 20 < ep.1.bitlen().max(eq.1.bitlen()) {
            3
        } else if fm.d.is_denormal(fm.dec(g.0)) || fm.dec(g.0) == Zero(false) || fm.dec(g.0) == Zero(true) {
            5
        } else {
            2
        },
        true,
    )
}

fn gen_arith(fm: &Pf, r: &mut Rng) -> Case {
    let a = gen_dd(fm, r);
    let op = r.pick(&[ADD, SUB, MUL]);
    let b = if op == MUL { gen_scaled(fm, r, a, false) } else { gen_near(fm, r, a) };
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let rm = if r.bool() { NTE } else { gen::rm(r) };
    Case { op, f: fm.idx as u8, rm, a: pack(fm, a), b: pack(fm, b), ..Case::default() }
}

/// Sums and products of the upper halves within a few units of the overflow threshold,
/// where the lower halves decide.
fn gen_limit(fm: &Pf, r: &mut Rng) -> Case {
    let op = r.pick(&[ADD, ADD, SUB, MUL]);
    let s = r.bool();
    let k = r.range(-3, 3);
    let nearest = |x: Big, q: i64| fm.enc(fm.d.round_big(s, &x, q, false, NTE).0);
    let (a, b) = if op == MUL {
        let t = { let x = (fm.d.emax / 2) as i64; r.range(-x, x) as i32 };
        let Fin(_, m, q) = gen::with_exp(r, fm.d, t) else { unreachable!() };
        // (2^(emax + 1) + k units in the last place of the largest half) / a
        let ulp = 300 - fm.d.p as i64;
        let n = Big::from(1).shl(300).add(&Big::from((3 + k) as u128).shl(ulp)).sub(&Big::from(3).shl(ulp));
        let n = n.divrem(&Big::from(m)).0;
        let c = gen::nudge(fm.d, nearest(n, (fm.d.emax + 1 - 300 - q) as i64) as u128, r.range(-1, 1)) as u64;
        (fm.enc(Fin(r.bool(), m, q)), c)
    } else {
        // in units of half the last place of the largest half
        let p = fm.d.p;
        let unit = (fm.d.emax - p) as i64;
        let a = Big::from(1u128 << p | r.u128() & mask(p)).shl(r.below(2) as i64);
        let a = if r.below(4) == 0 { Big::from(mask(p)).shl(1).sub(&Big::from(r.below(16).min(1 << (p - 2)) as u128).shl(1)) } else { a };
        let t = Big::from(1).shl(p as i64 + 1).add(&Big::from((3 + k) as u128)).sub(&Big::from(3));
        if a.cmp(&t) != Ordering::Less {
            return gen_arith(fm, r);
        }
        let c = t.sub(&a);
        let (a, c) = (nearest(a, unit), nearest(c, unit));
        (a, if op == SUB { c ^ fm.s } else { c })
    };
    if !normal(fm, (a, 0)) || !finite(fm, (a, 0)) || !normal(fm, (b, 0)) || !finite(fm, (b, 0)) {
        return gen_arith(fm, r);
    }
    let (a, b) = (gen_lo(fm, r, a), gen_lo(fm, r, b));
    let (a, b) = if r.bool() { (a, b) } else { (b, a) };
    let rm = if r.bool() { NTE } else { gen::rm(r) };
    Case { op, f: fm.idx as u8, rm, a: pack(fm, a), b: pack(fm, b), ..Case::default() }
}

fn p26(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = PFS
        .iter()
        .map(|fm| {
            full_phase(format!("special values of {} pairs", fm.f.name), 256 * 15, move |i, _| Case {
                op: (i % 3) as u8,
                f: fm.idx as u8,
                rm: (i / 3 % 5) as u8,
                a: pack(fm, fm.specials[i as usize / 15 % 16]),
                b: pack(fm, fm.specials[i as usize / 15 / 16]),
                ..Case::default()
            })
        })
        .collect();
    for fm in &PFS {
        let w = if fm.native() { 1 } else { 6 };
        let n = fm.f.name;
        v.push(phase(format!("{} pairs: upper halves meeting the overflow threshold", n), 600_000 * e / w, |_, r| gen_limit(fm, r)));
        v.push(phase(format!("{} pairs: structured operands", n), 6_000_000 * e / w, |_, r| gen_arith(fm, r)));
    }
    for fm in PFS.iter().filter(|fm| tiny(fm)) {
        let all = enumerate(fm);
        let n = all.len() as u64;
        if n < 2000 {
            let all = all.clone();
            v.push(full_phase(format!("{} pairs: every pair of operands", fm.f.name), n * n * 15, move |i, _| {
                let j = i / 15;
                Case { op: (i % 3) as u8, f: fm.idx as u8, rm: (i / 3 % 5) as u8, a: all[(j / n) as usize], b: all[(j % n) as usize], ..Case::default() }
            }));
        }
        v.push(phase(format!("{} pairs: any operands", fm.f.name), 1_000_000 * e, move |_, r| Case {
            op: r.pick(&[ADD, SUB, MUL]),
            f: fm.idx as u8,
            rm: gen::rm(r),
            a: all[r.below(n) as usize],
            b: all[r.below(n) as usize],
            ..Case::default()
        }));
    }
    v
}

fn desc_dd(c: &Case) -> String {
    let fm = of(c.f);
    let op = NAMES.get(c.op as usize).copied().unwrap_or(match c.op {
        TOU => "to_u128",
        TOI => "to_i128",
        DISP => "display",
        _ => "get_exact_inverse",
    });
    match c.op {
        PARSE => format!("from_str({:?}) {}", c.s, RM_NAMES[c.rm as usize % 5]),
        FROMU => format!("from_u128({}) {}", c.a, RM_NAMES[c.rm as usize % 5]),
        FROMI => format!("from_i128({}) {}", c.a as i128, RM_NAMES[c.rm as usize % 5]),
        FMA => format!("fma({}, {}, {}) {}", showp(fm, c.a), showp(fm, c.b), showp(fm, c.c), RM_NAMES[c.rm as usize % 5]),
        RINT | UP | DOWN | TOU.. => format!("{}({}) {} n={} k={}", op, showp(fm, c.a), RM_NAMES[c.rm as usize % 5], c.n, c.k),
        _ => format!("{}({}, {}) {}", op, showp(fm, c.a), showp(fm, c.b), RM_NAMES[c.rm as usize % 5]),
    }
}

// ------------------------------------------------- P22 programs over pairs
use apf_ops::hist::*;

/// Starting values of a program, and which of the pair formats it is over.
pub fn gen_start(r: &mut Rng, f: u8) -> [u128; 3] {
    let fm = of(f);
    let a = gen_dd(fm, r);
    let b = match r.below(3) {
        0 => gen_near(fm, r, a),
        1 => gen_scaled(fm, r, a, false),
        _ => gen_scaled(fm, r, a, true),
    };
    let c = if r.bool() { gen_near(fm, r, b) } else { gen_dd(fm, r) };
    [a, b, c].map(|p| pack(fm, p))
}

/// Exponents that programs scale by.
pub fn gen_exponent(r: &mut Rng, f: u8) -> i64 {
    let fm = of(f);
    match r.below(4) {
        0 => r.range(-2 * fm.d.emax as i64, 2 * fm.d.emax as i64),
        1 => r.range(-3 * fm.f.p as i64, 3 * fm.f.p as i64),
        _ => r.range(-8, 8),
    }
}

pub fn start_mask(f: u8) -> u128 {
    mask(2 * of(f).d.bits as i32)
}

/// One step of a program, judged as that operation is by P25, P26 or P27.
pub fn check_step(f: u8, i: &Instr, a: u128, b: u128, c: u128) -> (Res, String) {
    let case = |op: u8, n: i64, k: i64| Case { op, f, rm: i.rm, a, b, c, n, k, ..Case::default() };
    let repr = |n| {
        let c = case(2, n, 0);
        (check_repr(&c), desc_repr(&c))
    };
    let c = match i.op {
        H_ADD | H_SUB | H_MUL => {
            let c = case([ADD, SUB, MUL][i.op as usize], 0, 0);
            return (check_arith(&c), desc_dd(&c));
        }
        H_DIV => case(DIV, 0, 0),
        H_FMA => case(FMA, 0, 0),
        H_FMOD => case(FMOD, 0, 0),
        H_REM => case(REM, 0, 0),
        H_RINT => case(RINT, 0, 0),
        H_UP => case(UP, 0, 0),
        H_DOWN => case(DOWN, 0, 0),
        H_FROMINT => Case { a: i.n as i128 as u128, ..case(FROMI, 0, 0) },
        H_TEXT => case(DISP, 0, 0),
        H_TOINT => case(TOI, 1 + (i.n & 0x3f) as i64, 0),
        H_INV => case(INV, 0, 0),
        H_SCALBN => return repr(i.n as i64),
        _ => return repr(0),
    };
    (check_fallback(&c), desc_dd(&c))
}

// ------------------------------------------------- P27 the 106-bit based operations
pub const TOU: u8 = 14;
pub const TOI: u8 = 15;
pub const DISP: u8 = 16;
pub const INV: u8 = 17;

/// The operand as a 106-bit number: the sum, rounded to nearest even.
fn join(fm: &Pf, p: Pair) -> Val {
    match fm.dec(p.0) {
        Fin(..) => {
            let x = Ex::pair(fm, p);
            fm.f.round_big(x.0, &x.1, -fm.u, false, NTE).0
        }
        Nan(s, f) => Nan(s, f << fm.d.p),
        v => v,
    }
}

/// A 106-bit result as a pair: nearest double, and the exact rest.
fn split(fm: &Pf, v: Val) -> Option<Pair> {
    match v {
        Fin(s, m, x) => {
            let (hi, _) = fm.d.round(s, &W::from(m), x as i64, false, NTE);
            let Fin(_, hm, hq) = hi else { return None };
            let a = Ex(s, Big::from(m).shl(x as i64 + fm.u));
            let b = Ex(s, Big::from(hm).shl(hq as i64 + fm.u));
            let r = a.add(&b.neg());
            if r.1.is_zero() {
                return Some((fm.enc(hi), 0));
            }
            let t = r.1.trailing_zeros();
            let lo = r.1.shr(t).0.u128();
            let (lm, lq) = fm.d.canon(lo, (t - fm.u) as i32);
            Some((fm.enc(hi), fm.enc(Fin(r.0, lm, lq))))
        }
        Zero(s) => Some((fm.enc(Zero(s)), 0)),
        Inf(s) => Some((fm.enc(Inf(s)), 0)),
        Nan(..) => unreachable!(),
    }
}

/// Expected pair and status for a rounded 106-bit result.
fn expect(fm: &Pf, v: Val, st: u8, rm: u8) -> (Pair, u8) {
    match split(fm, v) {
        Some(p) => (p, st),
        None => {
            // Beyond the largest pair: an overflow like any other.
            let s = v.neg();
            let inf = match rm {
                NTE | NTA => true,
                TOPOS => !s,
                TONEG => s,
                _ => false,
            };
            if inf {
                ((fm.enc(Inf(s)), 0), OVERFLOW | INEXACT)
            } else {
                (if s { negate(fm, fm.largest()) } else { fm.largest() }, INEXACT)
            }
        }
    }
}

fn check_fallback(c: &Case) -> Res {
    let fm = of(c.f);
    if c.rm > 4 || c.op < DIV || c.op == CONV || c.op > INV || fm.f.emin >= 0 {
        return Res::Skip;
    }
    let o = o(fm);
    let unary = matches!(c.op, RINT | UP | DOWN | TOU | TOI | DISP | INV);
    let binary = matches!(c.op, DIV | FMOD | REM | FMA);
    let ps = [unpack(fm, c.a), unpack(fm, c.b), unpack(fm, c.c)];
    if (unary || binary) && !valid(fm, c.a) || binary && !valid(fm, c.b) || c.op == FMA && !valid(fm, c.c) {
        return Res::Skip;
    }
    // Pairs past `largest()` (by less than a unit of its 106 bits) have no 106-bit value.
    let arity = if c.op == FMA { 3 } else { binary as usize + (unary || binary) as usize };
    if ps[..arity].iter().any(|&p| finite(fm, p) && split_opt(fm, join(fm, p)).is_none()) {
        return Res::Skip;
    }
    let fin = |n: usize| ps[..n].iter().all(|&p| normal(fm, p));
    let v = |k: usize| join(fm, ps[k]);
    macro_rules! t {
        ($what:expr, $got:expr, $want:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return Res::Fail(format!("{}: got {:x?}, expected {:x?}", $what, g, w));
            }
        };
    }
    let (got, want, nt) = match c.op {
        DIV => {
            let g = (o.div)(c.a, c.b, c.rm);
            if c.rm == NTE {
                t!("operator /", (o.oper)(3, c.a, c.b), g);
            }
            (g, fm.f.div(v(0), v(1), c.rm), fin(2))
        }
        FMA => {
            let g = (o.fma)(c.a, c.b, c.c, c.rm);
            if c.rm == NTE {
                t!("mul_add", (o.fma_default)(c.a, c.b, c.c), g);
            }
            (g, fm.f.fma(v(0), v(1), v(2), c.rm), fin(3))
        }
        FMOD => {
            let g = (o.c_fmod)(c.a, c.b);
            t!("operator %", (o.oper)(4, c.a, c.b), g);
            (g, fm.f.fmod(v(0), v(1)), fin(2))
        }
        REM => ((o.ieee_rem)(c.a, c.b), fm.f.ieee_rem(v(0), v(1)), fin(2)),
        RINT => ((o.rint)(c.a, c.rm), fm.f.rint(v(0), c.rm), fin(1)),
        UP | DOWN => {
            let (g, w) = if c.op == UP { ((o.next_up)(c.a), fm.f.next_up(v(0))) } else { ((o.next_down)(c.a), fm.f.next_down(v(0))) };
            if let (None, Fin(s, ..)) = (split_opt(fm, w.0), w.0) {
                // past the largest pair
                t!("step past the largest", g, (fm.enc(Inf(s)) as u128, 0));
                return Res::Ok(4, true);
            }
            (g, w, fin(1))
        }
        FROMU => {
            let g = (o.from_u)(c.a, c.rm);
            if c.rm == NTE {
                t!("from_u128", (o.from_u_default)(c.a), g);
            }
            (g, fm.f.from_int(false, c.a, c.rm), c.a != 0)
        }
        FROMI => {
            let i = c.a as i128;
            let g = (o.from_i)(i, c.rm);
            if c.rm == NTE {
                t!("from_i128", (o.from_i_default)(i), g);
            }
            (g, fm.f.from_int(i < 0, i.unsigned_abs(), c.rm), i != 0)
        }
        PARSE => {
            let g = (o.parse)(&c.s, c.rm);
            if c.rm == NTE {
                t!("FromStr", (o.parse_default)(&c.s).ok(), g.as_ref().ok().map(|x| x.0));
            }
            match (g, text::read(&fm.f, &c.s, c.rm)) {
                (_, Err(())) => return Res::Ok(0, false),
                (Err(_), Ok(None)) => return Res::Ok(6, false),
                (Ok(g), Ok(None)) => return Res::Fail(format!("accepted as {}", showp(fm, g.0))),
                (Err(x), Ok(Some(_))) => return Res::Fail(format!("rejected: {}", x)),
                (Ok(g), Ok(Some(w))) => (g, w, true),
            }
        }
        TOU | TOI => {
            let w = (c.n.unsigned_abs() % 128 + 1) as usize;
            let pre = c.k & 1 != 0;
            if c.op == TOU {
                let g = (o.to_u)(c.a, w, c.rm, pre);
                t!("to_u128_r", g, fm.f.to_uint(v(0), w as u32, c.rm));
                t!("to_u128", (o.to_u_default)(c.a, w), { let x = fm.f.to_uint(v(0), w as u32, TOZERO); (x.0, x.1) });
            } else {
                let g = (o.to_i)(c.a, w, c.rm, pre);
                let mut want = fm.f.to_sint(v(0), w as u32, c.rm);
                want.1 |= neg_zero(v(0), g.1);
                t!("to_i128_r", g, want);
            }
            return Res::Ok(5, fin(1));
        }
        DISP => {
            let alt = c.k & 1 == 1;
            let (w, n) = ((c.k >> 1 > 0).then(|| (c.k >> 1) as usize - 1), (c.n > 0).then(|| c.n as usize - 1));
            let g = (o.display)(c.a, n, w, alt);
            let want = text::display(&fm.f, v(0), n, w, alt);
            if !want.contains(&g) {
                return Res::Fail(format!("prints {:?}, expected {:?}", g, want[0]));
            }
            if !matches!(v(0), Nan(..)) {
                // Natural precision reads back as the 106-bit value.
                let s = (o.to_string)(c.a);
                let back = (o.parse)(&s, NTE);
                let want = split(fm, v(0));
                if back.as_ref().ok().map(|b| unpack(fm, b.0)) != want {
                    return Res::Fail(format!("{:?} reads back as {:?}", s, back.map(|b| showp(fm, b.0))));
                }
            }
            return Res::Ok(5, fin(1));
        }
        _ => {
            let got = (o.inverse)(c.a);
            let want = if special(fm, ps[0]) || !normal(fm, ps[0]) { None } else { fm.f.inverse(v(0)).and_then(|x| split(fm, x)) };
            t!("get_exact_inverse", got, want.map(|x| pack(fm, x)));
            if let (Some(x), true) = (got, split_opt(fm, v(0)) == Some(ps[0])) {
                t!("a * (1/a)", (o.mul)(c.a, x, NTE), (fm.one() as u128, 0));
            }
            return Res::Ok(1, fin(1));
        }
    };
    let (wv, wst) = want;
    if let Nan(s, f) = wv {
        // The upper half is the NaN; there is no lower half.
        let hi = f >> fm.d.p;
        let want = (fm.enc(Nan(s, if hi == 0 { fm.d.qbit() >> 1 } else { hi })), 0);
        if (unpack(fm, got.0), got.1) != (want, wst) {
            return Res::Fail(format!("got {} {}, expected {} {}", showp(fm, got.0), status_str(got.1), showp(fm, pack(fm, want)), status_str(wst)));
        }
        return Res::Ok(0, false);
    }
    let w = expect(fm, wv, wst, c.rm);
    if (unpack(fm, got.0), got.1) != w {
        return Res::Fail(format!("got {} {}, expected {} {}", showp(fm, got.0), status_str(got.1), showp(fm, pack(fm, w.0)), status_str(w.1)));
    }
    let k = if !nt && c.op != PARSE {
        0
    } else if w.1 & OVERFLOW != 0 {
        4
    } else if w.1 & UNDERFLOW != 0 {
        3
    } else {
        1 + (w.1 & INEXACT != 0) as u8
    };
    Res::Ok(k, nt)
}

/// Minus zero to a signed integer: the status is the business of P11.
fn neg_zero(v: Val, got: u8) -> u8 {
    if v == Zero(true) {
        got & INEXACT
    } else {
        0
    }
}

fn split_opt(fm: &Pf, v: Val) -> Option<Pair> {
    if v.is_nan() {
        Some((0, 0))
    } else {
        split(fm, v)
    }
}

const FB: &[&str] = &["special operand", "exact", "rounded", "underflow", "overflow", "to integer or text", "rejected text"];

fn gen_fallback(fm: &Pf, r: &mut Rng) -> Case {
    let op = r.pick(&[DIV, DIV, DIV, FMA, FMA, FMA, RINT, RINT, UP, DOWN, FROMU, FROMI, TOU, TOI, INV, PARSE, DISP, FMOD, REM]);
    let rm = gen::rm(r);
    let mut c = Case { op, f: fm.idx as u8, rm, ..Case::default() };
    let a = gen_dd(fm, r);
    c.a = pack(fm, a);
    match op {
        DIV => c.b = pack(fm, gen_scaled(fm, r, a, true)),
        FMA => {
            let b = gen_scaled(fm, r, a, false);
            c.b = pack(fm, b);
            let t = fm.d.mul(fm.dec(a.0), fm.dec(b.0), NTE).0;
            c.c = pack(fm, if t.is_fin() {
                let p = gen_lo(fm, r, fm.enc(t));
                gen_near(fm, r, p)
            } else {
                gen_dd(fm, r)
            });
        }
        FMOD | REM => {
            let x = match fm.dec(a.0) {
                Fin(_, m, q) => bitlen(m) + q - 1,
                _ => 0,
            };
            let y = (x - r.range(-4, 230) as i32).clamp(fm.qmin() as i32, fm.d.emax);
            let h = fm.enc(gen::with_exp(r, fm.d, y));
            c.b = pack(fm, if r.below(16) == 0 { gen_dd(fm, r) } else { gen_lo(fm, r, h) });
        }
        RINT | TOU | TOI => {
            let x = r.range(-3, (fm.d.emax as i64).min(130)) as i32;
            let h = fm.enc(gen::with_exp(r, fm.d, x));
            let h = if r.bool() && x < fm.d.emax { fm.enc(fm.d.scalbn(fm.d.rint(fm.d.scalbn(fm.dec(h), 1, NTE), NTA).0, -1, NTE)) } else { h };
            if r.below(8) != 0 {
                c.a = pack(fm, gen_lo(fm, r, h));
            }
            c.n = if r.bool() { r.range(0, 127) } else { (x as i64 + r.range(-2, 2)).clamp(0, 127) };
            c.k = r.below(2) as i64;
        }
        FROMU | FROMI => {
            c.a = super::conv::int(r, fm.f.p);
        }
        INV => {
            if r.bool() {
                c.a = pack(fm, (fm.enc(Fin(r.bool(), 1, r.range(fm.qmin(), fm.d.emax as i64) as i32)), 0));
            }
        }
        PARSE => {
            if r.below(8) == 0 {
                let texts = [
                        "nan", "NaN", "-nan", "snan", "sNaN", "-snan", "nan(1)", "nan(0x123456)", "snan(12)", "inf", "-inf", "+Inf", "-Inf", "INFINITY", "0", "-0", "0x0p0", "", "1e999", "-1e999",
                        "1e-999", "-1e-400", "0x1p1024", "0x1p1023", "0x1p-1074", "0x1p-1075", "0x1.8p-1075", "x", "1e", "0x1", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "nan(", "++1",
                        "0x1.ffffffffffffffffffffffffffp1023", "0x1.fffffffffffff7fffffffffffff8p1023", "0x1.fffffffffffff8p1023",
                        "0x1p16", "0x1p15", "0x1p128", "0x1p127", "0x1p8", "0x1p7", "0x1p-9", "0x1p-10", "0x1p-16", "0x1p-17", "0x1p-24", "0x1p-25", "0x1p-133", "0x1p-134", "0x1p-149", "0x1.8p-150",
                        "65504", "65519", "65520", "65519.99", "65536", "60416", "61439", "61440", "14.75", "14.875", "15", "247.99", "248", "3.4028235e38", "3.4028236e38", "3.40282357e38",
                    ];
                c.s = r.pick(&texts).to_string();
            } else if r.bool() {
                let m = { let w = r.range(1, 120) as i32; gen::sig(r, w) };
                let x = match r.below(4) {
                    0 => r.range(fm.qmin() - 126, fm.f.emin as i64 + 9),
                    1 => r.range(fm.d.emax as i64 - 133, fm.d.emax as i64 + 1),
                    _ => {
                        let x = (fm.d.emax as i64).min(200);
                        r.range(-x, x)
                    }
                };
                c.s = format!("{}0x{:x}p{}", if r.bool() { "-" } else { "" }, m, x);
            } else {
                let nd = r.range(1, 45);
                // decimal exponents of the smallest and largest numbers
                let (lo, hi) = (fm.qmin() * 30103 / 100000 - 1, fm.d.emax as i64 * 30103 / 100000);
                let s: String = (0..nd).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                let x = match r.below(8) {
                    0 => r.range(lo - 6, lo + 39),
                    1 => r.range(hi - 8, hi + 2),
                    2 => hi,
                    _ => {
                        let x = (hi + 1).min(60);
                        r.range(-x, x)
                    }
                };
                c.s = format!("{}{}e{}", if r.bool() { "-" } else { "" }, s, x - nd + 1);
            }
            c.a = 0;
        }
        DISP => {
            let x = r.range(-180, 180).clamp(fm.qmin(), fm.d.emax as i64) as i32;
            let h = fm.enc(gen::with_exp(r, fm.d, x));
            if r.below(8) != 0 {
                c.a = pack(fm, gen_lo(fm, r, h));
            }
            c.n = if r.bool() { 0 } else { r.range(0, 40) };
            c.k = r.range(0, 20);
        }
        _ => {}
    }
    c
}

/// Results around the largest pair and the values between it and 2^1024.
fn gen_top(fm: &Pf, r: &mut Rng) -> Case {
    let op = r.pick(&[FMA, FMA, DIV, DIV, PARSE, PARSE, UP, DOWN]);
    let mut c = Case { op, f: fm.idx as u8, rm: gen::rm(r), ..Case::default() };
    let small = |r: &mut Rng| {
        let x = (fm.d.emax - fm.d.p + 5 - r.below(2 * fm.d.p as u64 + 10) as i32).max(fm.d.emin + fm.d.p);
        let w = r.pick(&[1, 1, 2, 3, 20, 53]).min(fm.d.p);
        Fin(r.bool(), gen::sig(r, w), x - w + 1)
    };
    let hi = fm.top() - r.pick(&[0, 0, 0, 1, 2]);
    let top = match r.below(4) {
        0 => fm.largest(),
        1 => (hi, 0),
        2 => (hi, fm.enc(small(r))),
        _ => gen_lo(fm, r, hi),
    };
    let top = if canonical(fm, top) { top } else { fm.largest() };
    let top = if r.bool() { negate(fm, top) } else { top };
    match op {
        FMA => {
            let t = r.range(0, (fm.d.emax as i64 - 1).min(60)) as i32;
            let scale = |p: Pair| (fm.enc(fm.d.scalbn(fm.dec(p.0), -t, NTE)), fm.enc(fm.d.scalbn(fm.dec(p.1), -t, NTE)));
            let b = fm.enc(Fin(r.bool(), 1, t));
            c.a = pack(fm, scale(top));
            c.b = pack(fm, (b, 0));
            let v = fm.enc(small(r));
            c.c = pack(fm, gen_lo(fm, r, v));
        }
        DIV => {
            let l = r.range((-2 * fm.d.p as i64 - 6).max(fm.qmin()), 3 - fm.d.p as i64) as i32;
            let one = fm.one();
            let w = r.pick(&[1, 2, 10]).min(fm.d.p);
            c.a = pack(fm, top);
            c.b = pack(fm, renorm(fm, one, fm.enc(Fin(r.bool(), gen::sig(r, w), l))));
        }
        PARSE => {
            let w = r.pick(&[1, 1, 2, 5, 50]);
            let m = gen::sig(r, w);
            // 2^(emax + 1) and a bit more or less
            let k = fm.d.emax as i64 + 1;
            let lo = (k - 180).max(0);
            let x = Big::from(m).shl(r.range(lo, (k - fm.d.p as i64 - 1).max(lo)));
            let t = Big::from(1).shl(k);
            if t.cmp(&x) == Ordering::Less {
                return gen_fallback(fm, r);
            }
            let t = if r.below(4) == 0 { t.add(&x) } else { t.sub(&x) };
            let sign = if r.bool() { "-" } else { "" };
            c.s = if r.bool() {
                let k = (k - 224 + r.below(45) as i64).max(0);
                let h = t.shr(k).0;
                // in hexadecimal, 32 bits at a time
                let mut s = String::new();
                for i in (0..8).rev() {
                    let part = h.shr(32 * i).0;
                    s.push_str(&format!("{:08x}", part.0.first().copied().unwrap_or(0) as u32));
                }
                format!("{}0x{}p{}", sign, s, k)
            } else {
                let s = t.to_decimal();
                let n = r.pick(&[s.len(), s.len(), 20, 32, 33, 34, 60]).min(s.len());
                format!("{}{}e{}", sign, &s[..n], s.len() - n)
            };
        }
        _ => c.a = pack(fm, top),
    }
    c
}

/// Formats whose pairs have numbers of full precision below one.
fn wide() -> impl Iterator<Item = &'static Pf> {
    PFS.iter().filter(|fm| fm.f.emin < 0)
}

fn p27(e: u64) -> Vec<Phase> {
    let mut v: Vec<Phase> = wide()
        .map(|fm| {
            full_phase(format!("special values of {} pairs", fm.f.name), 256 * 5 * 15, move |i, _| {
                let op = [DIV, FMOD, REM, RINT, UP, DOWN, FMA, TOU, TOI, DISP, INV, FMA, DIV, FMA, FMA][i as usize % 15];
                let j = i / 15;
                let k = j / 5;
                Case {
                    op,
                    f: fm.idx as u8,
                    rm: (j % 5) as u8,
                    a: pack(fm, fm.specials[k as usize % 16]),
                    b: pack(fm, fm.specials[k as usize / 16]),
                    c: pack(fm, fm.specials[(i as usize * 7 + k as usize / 3) % 16]),
                    n: 63,
                    ..Case::default()
                }
            })
        })
        .collect();
    for fm in wide() {
        let w = if fm.native() { 1 } else { 6 };
        let n = fm.f.name;
        v.push(slow_phase(format!("{} pairs: results around the largest", n), 200_000 * e / w, |_, r| gen_top(fm, r)));
        v.push(slow_phase(format!("{} pairs: structured operands", n), 1_500_000 * e / w, |_, r| gen_fallback(fm, r)));
    }
    for fm in wide().filter(|fm| tiny(fm)) {
        let all = enumerate(fm);
        let n = all.len() as u64;
        let all2 = all.clone();
        v.push(full_phase(format!("{} pairs: every operand of the unary operations", fm.f.name), n * 5 * 7, move |i, r| {
            let op = [RINT, UP, DOWN, TOU, TOI, DISP, INV][i as usize % 7];
            Case { op, f: fm.idx as u8, rm: (i / 7 % 5) as u8, a: all2[(i / 35) as usize], n: r.range(0, 127), k: r.range(0, 20), ..Case::default() }
        }));
        if n < 2000 {
            let all = all.clone();
            v.push(full_phase(format!("{} pairs: every pair of operands of the binary operations", fm.f.name), n * n * 7, move |i, _| {
                let (op, rm) = [(DIV, 0), (DIV, 1), (DIV, 2), (DIV, 3), (DIV, 4), (FMOD, 0), (REM, 0)][i as usize % 7];
                let j = i / 7;
                Case { op, f: fm.idx as u8, rm, a: all[(j / n) as usize], b: all[(j % n) as usize], ..Case::default() }
            }));
        }
        v.push(phase(format!("{} pairs: any operands", fm.f.name), 400_000 * e, move |_, r| {
            let x = |r: &mut Rng| all[r.below(n) as usize];
            Case { op: r.pick(&[DIV, FMA, FMA, FMOD, REM]), f: fm.idx as u8, rm: gen::rm(r), a: x(r), b: x(r), c: x(r), ..Case::default() }
        }));
    }
    v
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "P25",
        title: "double-double: encoding, order, signs, classes, scaling",
        rule: "Cases: pairs whose high half is the double nearest to the sum, with low halves at, just below and far below half a unit, of both signs and in the subnormal range; partners sharing or nearly sharing the high half; all pairs of special values; arbitrary bits for the encoding. Non-trivial: the first operand is finite and non-zero (or the case is about arbitrary bits or constants).",
        classes: CLS,
        phases: p25,
        check: check_repr,
        describe: desc_repr,
    },
    Prop {
        id: "P26",
        title: "double-double: add, subtract, multiply",
        rule: "Cases: canonical pairs with partners that cancel, nearly cancel, align with the low half, overflow or underflow, in every rounding mode; all pairs of special values. Non-trivial: both operands finite and non-zero.",
        classes: ARITH,
        phases: p26,
        check: check_arith,
        describe: desc_dd,
    },
    Prop {
        id: "P27",
        title: "double-double: operations defined on 106 bits",
        rule: "Cases: divide, fused multiply-add, remainders, round to integral, next up/down, integer conversions, text both ways and exact inverse, on canonical pairs steered to the limits of the range. Non-trivial: every operand is finite and non-zero (or a text is accepted).",
        classes: FB,
        phases: p27,
        check: check_fallback,
        describe: desc_dd,
    },
];
