//! Uniform, non-generic view of the public API of `rustc_apfloat`.
//!
//! Every format is exposed as a table of plain functions over interchange-format
//! bits, so that generators, oracles and shrinkers are written once, and nothing
//! outside of this crate depends on how the library is implemented.

use rustc_apfloat::ieee::{self, IeeeFloat, NonfiniteBehavior, Semantics};
use rustc_apfloat::ppc::{DoubleDouble, DoubleFloat};
use rustc_apfloat::{Category, Float, FloatConvert, Round, StatusAnd};
use std::cmp::Ordering;
use std::hint::black_box;

pub mod hist;

// ---------------------------------------------------------------- status bits
pub const INVALID: u8 = 0x01;
pub const DIVZERO: u8 = 0x02;
pub const OVERFLOW: u8 = 0x04;
pub const UNDERFLOW: u8 = 0x08;
pub const INEXACT: u8 = 0x10;

/// Names, indexed by the bit position.
pub fn status_str(s: u8) -> String {
    if s == 0 {
        return "OK".into();
    }
    let mut v = vec![];
    for (b, n) in [
        (INVALID, "INVALID_OP"),
        (DIVZERO, "DIV_BY_ZERO"),
        (OVERFLOW, "OVERFLOW"),
        (UNDERFLOW, "UNDERFLOW"),
        (INEXACT, "INEXACT"),
    ] {
        if s & b != 0 {
            v.push(n.to_string());
        }
    }
    if s & !0x1f != 0 {
        v.push(format!("{:#x}", s & !0x1f));
    }
    v.join("|")
}

fn st(s: rustc_apfloat::Status) -> u8 {
    use rustc_apfloat::Status as S;
    // Spelled out instead of `bits()`: only the documented named flags matter.
    let mut r = 0;
    if s.contains(S::INVALID_OP) {
        r |= INVALID;
    }
    if s.contains(S::DIV_BY_ZERO) {
        r |= DIVZERO;
    }
    if s.contains(S::OVERFLOW) {
        r |= OVERFLOW;
    }
    if s.contains(S::UNDERFLOW) {
        r |= UNDERFLOW;
    }
    if s.contains(S::INEXACT) {
        r |= INEXACT;
    }
    r
}

// ------------------------------------------------------------- rounding modes
pub const NTE: u8 = 0;
pub const TOPOS: u8 = 1;
pub const TONEG: u8 = 2;
pub const TOZERO: u8 = 3;
pub const NTA: u8 = 4;
pub const RM_NAMES: [&str; 5] = ["NearestTiesToEven", "TowardPositive", "TowardNegative", "TowardZero", "NearestTiesToAway"];

pub fn round(rm: u8) -> Round {
    match rm {
        NTE => Round::NearestTiesToEven,
        TOPOS => Round::TowardPositive,
        TONEG => Round::TowardNegative,
        TOZERO => Round::TowardZero,
        _ => Round::NearestTiesToAway,
    }
}

// ------------------------------------------------------------ custom formats
// "Adding a new format that obeys IEEE semantics only requires adding two lines
// of code" (documentation of `Float`): user-defined formats are part of the API.
macro_rules! custom {
    ($($alias:ident = $sem:ident($b:expr, $e:expr $(, $nan:ident)? $(; $min:expr)?);)*) => { $(
        pub struct $sem;
        pub type $alias = IeeeFloat<$sem>;
        impl Semantics for $sem {
            const BITS: usize = $b;
            const EXP_BITS: usize = $e;
            $(const NONFINITE_BEHAVIOR: NonfiniteBehavior = NonfiniteBehavior::$nan;)?
            $(const MIN_EXP: i32 = $min;)?
        }
    )* }
}
custom! {
    C6E3 = C6E3S(6, 3);
    C8E4 = C8E4S(8, 4);
    C9E5N = C9E5NS(9, 5, NanOnly);
    C19E8 = C19E8S(19, 8);
    C96E15 = C96E15S(96, 15);
    C128E8 = C128E8S(128, 8);
    // (more precision than range)
    C9E3 = C9E3S(9, 3);
    C24E4 = C24E4S(24, 4);
    // (as much precision as there is room for)
    C128E3 = C128E3S(128, 3);
    C6E4 = C6E4S(6, 4);
    C6E4N = C6E4NS(6, 4, NanOnly);
    // (a bias other than the default one)
    C12E5B = C12E5BS(12, 5; -20);
    C8E4NB = C8E4NBS(8, 4, NanOnly; -9);
}

// ------------------------------------------------------------------ the table
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cat {
    Inf,
    NaN,
    Normal,
    Zero,
}

pub fn cat(c: Category) -> Cat {
    match c {
        Category::Infinity => Cat::Inf,
        Category::NaN => Cat::NaN,
        Category::Normal => Cat::Normal,
        Category::Zero => Cat::Zero,
    }
}

/// All the classification predicates of the API.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Class {
    pub cat: Cat,
    pub negative: bool,
    pub normal: bool,
    pub finite: bool,
    pub zero: bool,
    pub denormal: bool,
    pub infinite: bool,
    pub nan: bool,
    pub signaling: bool,
    pub non_zero: bool,
    pub finite_non_zero: bool,
    pub pos_zero: bool,
    pub neg_zero: bool,
    pub pos_inf: bool,
    pub neg_inf: bool,
    pub smallest: bool,
    pub smallest_normalized: bool,
    pub largest: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Consts {
    pub bits: usize,
    pub precision: usize,
    pub max_exp: i32,
    pub min_exp: i32,
    pub zero: u128,
    pub default: u128,
    pub infinity: u128,
    pub nan: u128,
    pub smallest: u128,
    pub largest: u128,
    pub smallest_normalized: u128,
    /// Some constant (or constructed NaN) differs from the value decoded from its bits.
    pub unlike_decoded: bool,
}

/// Relations reported by the comparison operators.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rel {
    pub partial: Option<Ordering>,
    pub eq: bool,
    pub ne: bool,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
}

pub type BS = (u128, u8);

#[derive(Clone, Copy)]
pub struct Ops {
    pub name: &'static str,
    pub rt: fn(u128) -> u128,
    pub consts: fn() -> Consts,
    pub class: fn(u128) -> Class,
    pub is_integer: fn(u128) -> bool,
    pub add: fn(u128, u128, u8) -> BS,
    pub sub: fn(u128, u128, u8) -> BS,
    pub mul: fn(u128, u128, u8) -> BS,
    pub div: fn(u128, u128, u8) -> BS,
    pub fma: fn(u128, u128, u128, u8) -> BS,
    pub fma_default: fn(u128, u128, u128) -> BS,
    pub ieee_rem: fn(u128, u128) -> BS,
    pub c_fmod: fn(u128, u128) -> BS,
    /// `+ - * / %` and `+= -= *= /= %=`, by index.
    pub oper: fn(u8, u128, u128) -> BS,
    pub oper_assign: fn(u8, u128, u128) -> u128,
    pub rint: fn(u128, u8) -> BS,
    pub next_up: fn(u128) -> BS,
    pub next_down: fn(u128) -> BS,
    pub neg: fn(u128) -> u128,
    pub abs: fn(u128) -> u128,
    pub copy_sign: fn(u128, u128) -> u128,
    pub from_u: fn(u128, u8) -> BS,
    pub from_i: fn(i128, u8) -> BS,
    pub from_u_default: fn(u128) -> BS,
    pub from_i_default: fn(i128) -> BS,
    pub to_u: fn(u128, usize, u8, bool) -> (u128, u8, bool),
    pub to_i: fn(u128, usize, u8, bool) -> (i128, u8, bool),
    pub to_u_default: fn(u128, usize) -> (u128, u8),
    pub to_i_default: fn(u128, usize) -> (i128, u8),
    pub parse: fn(&str, u8) -> Result<BS, &'static str>,
    pub parse_default: fn(&str) -> Result<u128, &'static str>,
    pub display: fn(u128, Option<usize>, Option<usize>, bool) -> String,
    /// Formatting to a writer that fails once, at the write that would exceed a number of
    /// bytes: what was written before, and whether formatting reported success.
    pub display_to: fn(u128, Option<usize>, Option<usize>, bool, usize) -> (String, bool),
    pub to_string: fn(u128) -> String,
    pub debug: fn(u128) -> String,
    pub rel: fn(u128, u128) -> Rel,
    pub cmp_abs: fn(u128, u128) -> Ordering,
    pub bitwise_eq: fn(u128, u128) -> bool,
    /// min, max, minimum, maximum
    pub minmax: fn(u8, u128, u128) -> u128,
    pub ilogb: fn(u128) -> i32,
    pub scalbn: fn(u128, i32, u8) -> u128,
    pub scalbn_default: fn(u128, i32) -> u128,
    pub frexp: fn(u128, u8) -> (u128, i32),
    pub frexp_default: fn(u128) -> (u128, i32),
    pub inverse: fn(u128) -> Option<u128>,
    pub qnan: fn(Option<u128>) -> u128,
    pub snan: fn(Option<u128>) -> u128,
    pub hist: fn(&[hist::Instr], &[u128]) -> Result<hist::Trace, String>,
}

fn bs<T: Float>(r: StatusAnd<T>) -> BS {
    (r.value.to_bits(), st(r.status))
}

fn fb<T: Float>(x: u128) -> T {
    T::from_bits(x)
}

fn oper<T: Float>(op: u8, a: u128, b: u128) -> BS {
    let (a, b) = (fb::<T>(a), fb::<T>(b));
    bs(match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a % b,
    })
}

fn oper_assign<T: Float>(op: u8, a: u128, b: u128) -> u128 {
    let (mut a, b) = (fb::<T>(a), fb::<T>(b));
    match op {
        0 => a += b,
        1 => a -= b,
        2 => a *= b,
        3 => a /= b,
        _ => a %= b,
    }
    a.to_bits()
}

fn write_display<T: Float>(o: &mut dyn std::fmt::Write, a: u128, prec: Option<usize>, width: Option<usize>, alt: bool) -> std::fmt::Result {
    let v = fb::<T>(a);
    match (prec, width, alt) {
        (None, None, false) => write!(o, "{}", v),
        (None, None, true) => write!(o, "{:#}", v),
        (Some(p), None, false) => write!(o, "{:.p$}", v, p = p),
        (Some(p), None, true) => write!(o, "{:#.p$}", v, p = p),
        (None, Some(w), false) => write!(o, "{:w$}", v, w = w),
        (None, Some(w), true) => write!(o, "{:#w$}", v, w = w),
        (Some(p), Some(w), false) => write!(o, "{:w$.p$}", v, w = w, p = p),
        (Some(p), Some(w), true) => write!(o, "{:#w$.p$}", v, w = w, p = p),
    }
}

fn display<T: Float>(a: u128, prec: Option<usize>, width: Option<usize>, alt: bool) -> String {
    let mut s = String::new();
    write_display::<T>(&mut s, a, prec, width, alt).expect("formatting failed");
    s
}

fn display_to<T: Float>(a: u128, prec: Option<usize>, width: Option<usize>, alt: bool, limit: usize) -> (String, bool) {
    struct Fails {
        text: String,
        left: usize,
        failed: bool,
    }
    impl std::fmt::Write for Fails {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.failed {
                return Ok(());
            }
            if s.len() > self.left {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.left -= s.len();
            self.text.push_str(s);
            Ok(())
        }
    }
    let mut w = Fails { text: String::new(), left: limit, failed: false };
    let ok = write_display::<T>(&mut w, a, prec, width, alt).is_ok();
    (w.text, ok)
}

pub(crate) fn class_of<T: Float>(v: T) -> Class {
    Class {
        cat: cat(v.category()),
        negative: v.is_negative(),
        normal: v.is_normal(),
        finite: v.is_finite(),
        zero: v.is_zero(),
        denormal: v.is_denormal(),
        infinite: v.is_infinite(),
        nan: v.is_nan(),
        signaling: v.is_signaling(),
        non_zero: v.is_non_zero(),
        finite_non_zero: v.is_finite_non_zero(),
        pos_zero: v.is_pos_zero(),
        neg_zero: v.is_neg_zero(),
        pos_inf: v.is_pos_infinity(),
        neg_inf: v.is_neg_infinity(),
        smallest: v.is_smallest(),
        smallest_normalized: v.is_smallest_normalized(),
        largest: v.is_largest(),
    }
}

fn unlike_decoded<T: Float>(v: T) -> bool {
    let d = T::from_bits(v.to_bits());
    !v.bitwise_eq(d)
        || !d.bitwise_eq(v)
        || class_of(v) != class_of(d)
        || rel_of(v, d) != rel_of(d, d)
        || rel_of(d, v) != rel_of(d, d)
        || v.is_integer() != d.is_integer()
        || v.ilogb() != d.ilogb()
}

pub(crate) fn rel_of<T: Float>(a: T, b: T) -> Rel {
    Rel {
        partial: a.partial_cmp(&b),
        eq: a == b,
        ne: a != b,
        lt: a < b,
        le: a <= b,
        gt: a > b,
        ge: a >= b,
    }
}

fn minmax<T: Float>(op: u8, a: u128, b: u128) -> u128 {
    let (a, b) = (fb::<T>(a), fb::<T>(b));
    match op {
        0 => a.min(b),
        1 => a.max(b),
        2 => a.minimum(b),
        _ => a.maximum(b),
    }
    .to_bits()
}

fn ops<T: Float + std::fmt::Debug + 'static>(name: &'static str) -> Ops {
    Ops {
        name,
        rt: |x| fb::<T>(black_box(x)).to_bits(),
        consts: || Consts {
            bits: T::BITS,
            precision: T::PRECISION,
            max_exp: T::MAX_EXP,
            min_exp: T::MIN_EXP,
            zero: T::ZERO.to_bits(),
            default: T::default().to_bits(),
            infinity: T::INFINITY.to_bits(),
            nan: T::NAN.to_bits(),
            smallest: T::SMALLEST.to_bits(),
            largest: T::largest().to_bits(),
            smallest_normalized: T::smallest_normalized().to_bits(),
            unlike_decoded: [
                T::ZERO,
                T::INFINITY,
                T::NAN,
                T::SMALLEST,
                T::largest(),
                T::smallest_normalized(),
                T::qnan(None),
                T::snan(None),
                T::qnan(Some(!0)),
                T::snan(Some(!0)),
                T::snan(Some(1)),
            ]
            .into_iter()
            // (there is no signaling NaN in a format with a single fraction bit)
            .any(|v| !(T::PRECISION < 3 && v.is_signaling()) && (unlike_decoded(v) || unlike_decoded(-v))),
        },
        class: |x| class_of(fb::<T>(x)),
        is_integer: |x| fb::<T>(x).is_integer(),
        add: |a, b, r| bs(fb::<T>(a).add_r(fb(b), round(r))),
        sub: |a, b, r| bs(fb::<T>(a).sub_r(fb(b), round(r))),
        mul: |a, b, r| bs(fb::<T>(a).mul_r(fb(b), round(r))),
        div: |a, b, r| bs(fb::<T>(a).div_r(fb(b), round(r))),
        fma: |a, b, c, r| bs(fb::<T>(a).mul_add_r(fb(b), fb(c), round(r))),
        fma_default: |a, b, c| bs(fb::<T>(a).mul_add(fb(b), fb(c))),
        ieee_rem: |a, b| bs(fb::<T>(a).ieee_rem(fb(b))),
        c_fmod: |a, b| bs(fb::<T>(a).c_fmod(fb(b))),
        oper: oper::<T>,
        oper_assign: oper_assign::<T>,
        rint: |a, r| bs(fb::<T>(a).round_to_integral(round(r))),
        next_up: |a| bs(fb::<T>(a).next_up()),
        next_down: |a| bs(fb::<T>(a).next_down()),
        neg: |a| (-fb::<T>(a)).to_bits(),
        abs: |a| fb::<T>(a).abs().to_bits(),
        copy_sign: |a, b| fb::<T>(a).copy_sign(fb(b)).to_bits(),
        from_u: |u, r| bs(T::from_u128_r(u, round(r))),
        from_i: |i, r| bs(T::from_i128_r(i, round(r))),
        from_u_default: |u| bs(T::from_u128(u)),
        from_i_default: |i| bs(T::from_i128(i)),
        to_u: |a, w, r, init| {
            let mut e = init;
            let s = fb::<T>(a).to_u128_r(w, round(r), &mut e);
            (s.value, st(s.status), e)
        },
        to_i: |a, w, r, init| {
            let mut e = init;
            let s = fb::<T>(a).to_i128_r(w, round(r), &mut e);
            (s.value, st(s.status), e)
        },
        to_u_default: |a, w| {
            let s = fb::<T>(a).to_u128(w);
            (s.value, st(s.status))
        },
        to_i_default: |a, w| {
            let s = fb::<T>(a).to_i128(w);
            (s.value, st(s.status))
        },
        parse: |s, r| T::from_str_r(s, round(r)).map(bs).map_err(|e| e.0),
        parse_default: |s| s.parse::<T>().map(|v| v.to_bits()).map_err(|e| e.0),
        display: display::<T>,
        display_to: display_to::<T>,
        to_string: |a| fb::<T>(a).to_string(),
        debug: |a| format!("{:?}", fb::<T>(a)),
        rel: |a, b| rel_of(fb::<T>(a), fb::<T>(b)),
        cmp_abs: |a, b| fb::<T>(a).cmp_abs_normal(fb(b)),
        bitwise_eq: |a, b| fb::<T>(a).bitwise_eq(fb(b)),
        minmax: minmax::<T>,
        ilogb: |a| fb::<T>(a).ilogb(),
        scalbn: |a, n, r| fb::<T>(a).scalbn_r(n, round(r)).to_bits(),
        scalbn_default: |a, n| fb::<T>(a).scalbn(n).to_bits(),
        frexp: |a, r| {
            let mut e = 0x5a5a5a;
            let v = fb::<T>(a).frexp_r(&mut e, round(r));
            (v.to_bits(), e)
        },
        frexp_default: |a| {
            let mut e = 0x5a5a5a;
            let v = fb::<T>(a).frexp(&mut e);
            (v.to_bits(), e)
        },
        inverse: |a| fb::<T>(a).get_exact_inverse().map(|v| v.to_bits()),
        qnan: |p| T::qnan(p).to_bits(),
        snan: |p| T::snan(p).to_bits(),
        hist: hist::run::<T>,
    }
}

// ------------------------------------------------------------------- registry
pub const N_BUILTIN: usize = 8;
pub const N_IEEE: usize = 21;
/// Index of `DoubleDouble` in the table.
pub const DD: usize = 21;
pub const N_ALL: usize = 22;
/// After them, the other pairs.
pub const PAIRS: usize = 22;
/// (the formats of their halves)
pub const HALVES: [usize; 6] = [1, 4, 0, 5, 9, 8];
/// (the last one has no number of full precision below one: its text operations and
/// roundings are out of the domain)
pub const N_TABLE: usize = PAIRS + HALVES.len() - 1;

/// The format of the halves of format `i`, if it is one of pairs.
pub fn half_of(i: usize) -> Option<usize> {
    if i == DD {
        Some(2)
    } else {
        i.checked_sub(PAIRS).map(|j| HALVES[j])
    }
}

macro_rules! registry {
    ($($idx:literal $name:literal $t:ty;)*) => {
        pub static NAMES: [&str; N_ALL] = [$($name,)* "DoubleDouble"];

        fn make() -> Vec<Ops> {
            vec![
                $(ops::<$t>($name),)*
                ops::<DoubleDouble>("DoubleDouble"),
                ops::<DoubleFloat<ieee::Single>>("Pair of Single"),
                ops::<DoubleFloat<ieee::BFloat>>("Pair of BFloat"),
                ops::<DoubleFloat<ieee::Half>>("Pair of Half"),
                ops::<DoubleFloat<ieee::Float8E5M2>>("Pair of Float8E5M2"),
                ops::<DoubleFloat<C8E4>>("Pair of Custom8E4"),
                ops::<DoubleFloat<C6E3>>("Pair of Custom6E3"),
            ]
        }

        fn conv_from<S: Float $(+ FloatConvert<$t>)*>(to: usize) -> fn(u128, u8, bool) -> (u128, u8, bool) {
            match to {
                $($idx => conv1::<S, $t>,)*
                _ => unreachable!(),
            }
        }
        fn conv_from_default<S: Float $(+ FloatConvert<$t>)*>(to: usize) -> fn(u128) -> (u128, u8, bool) {
            match to {
                $($idx => conv2::<S, $t>,)*
                _ => unreachable!(),
            }
        }

        /// `convert_r` from format `from` to format `to` (`bits, rounding, initial value of *loses_info`).
        pub fn conv(from: usize, to: usize) -> fn(u128, u8, bool) -> (u128, u8, bool) {
            match from {
                $($idx => conv_from::<$t>(to),)*
                _ => unreachable!(),
            }
        }
        pub fn conv_default(from: usize, to: usize) -> fn(u128) -> (u128, u8, bool) {
            match from {
                $($idx => conv_from_default::<$t>(to),)*
                _ => unreachable!(),
            }
        }
    }
}

fn conv1<S: FloatConvert<T>, T: Float>(a: u128, r: u8, init: bool) -> (u128, u8, bool) {
    let mut l = init;
    let s = FloatConvert::<T>::convert_r(fb::<S>(a), round(r), &mut l);
    (s.value.to_bits(), st(s.status), l)
}
fn conv2<S: FloatConvert<T>, T: Float>(a: u128) -> (u128, u8, bool) {
    let mut l = false;
    let s = FloatConvert::<T>::convert(fb::<S>(a), &mut l);
    (s.value.to_bits(), st(s.status), l)
}

registry! {
    0 "Half" ieee::Half;
    1 "Single" ieee::Single;
    2 "Double" ieee::Double;
    3 "Quad" ieee::Quad;
    4 "BFloat" ieee::BFloat;
    5 "Float8E5M2" ieee::Float8E5M2;
    6 "Float8E4M3FN" ieee::Float8E4M3FN;
    7 "X87DoubleExtended" ieee::X87DoubleExtended;
    8 "Custom6E3" C6E3;
    9 "Custom8E4" C8E4;
    10 "Custom9E5NanOnly" C9E5N;
    11 "Custom19E8" C19E8;
    12 "Custom96E15" C96E15;
    13 "Custom128E8" C128E8;
    14 "Custom9E3" C9E3;
    15 "Custom24E4" C24E4;
    16 "Custom12E5Biased" C12E5B;
    17 "Custom8E4NanOnlyBiased" C8E4NB;
    18 "Custom128E3" C128E3;
    19 "Custom6E4" C6E4;
    20 "Custom6E4NanOnly" C6E4N;
}

pub fn table() -> &'static [Ops] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<Ops>> = OnceLock::new();
    T.get_or_init(make)
}

#[inline]
pub fn f(i: usize) -> &'static Ops {
    &table()[i]
}

// ------------------------------------------------------- Round and StatusAnd
pub fn round_neg(rm: u8) -> u8 {
    match -round(rm) {
        Round::NearestTiesToEven => NTE,
        Round::TowardPositive => TOPOS,
        Round::TowardNegative => TONEG,
        Round::TowardZero => TOZERO,
        Round::NearestTiesToAway => NTA,
    }
}

fn status(s: u8) -> rustc_apfloat::Status {
    use rustc_apfloat::Status as S;
    let mut r = S::OK;
    for (b, f) in [
        (INVALID, S::INVALID_OP),
        (DIVZERO, S::DIV_BY_ZERO),
        (OVERFLOW, S::OVERFLOW),
        (UNDERFLOW, S::UNDERFLOW),
        (INEXACT, S::INEXACT),
    ] {
        if s & b != 0 {
            r |= f;
        }
    }
    r
}

/// What the status plumbing does with status `s` and value `v`: (after `and`+`map`,
/// after `unpack!` accumulating on top of status `t`, after `unpack!` assigning).
pub fn status_plumbing(s: u8, t: u8, v: u64) -> ((u64, u8), (u64, u8), (u64, u8)) {
    let sa = status(s).and(v).map(|x| x.wrapping_mul(3));
    let mut acc = status(t);
    let w = rustc_apfloat::unpack!(acc|=, status(s).and(v));
    let mut asg = status(t);
    let x = rustc_apfloat::unpack!(asg=, status(s).and(v));
    let _ = &mut asg;
    ((sa.value, st(sa.status)), (w, st(acc)), (x, st(asg)))
}

/// `StatusAnd::unwrap`: Err if it panicked.
pub fn status_unwrap(s: u8, v: u64) -> Result<u64, ()> {
    std::panic::catch_unwind(|| status(s).and(v).unwrap()).map_err(|_| ())
}
