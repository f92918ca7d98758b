//! Execution of one event against the real code.
use crate::fmts::*;
use crate::for_formats;
use rustc_apfloat::ppc::DoubleDouble;
use rustc_apfloat::{Category, Float, FloatConvert, Round, Status, StatusAnd};
use std::any::Any;
use std::cmp::Ordering;
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add, Sub, Mul, Div, Fmod, Rem, Fma, Rint, Next, Prev, Cmp, Class, Conv, ToInt, FromInt, Parse, Show, Scale,
    ILogB, Frexp, Inv, Const, NaN, Row, Row1, Neg, Abs, CopySign, Meta,
    Begin, Load, Named, Copy, Pick, Fresh, Reset, Dump,
}
pub const OPS: [(Op, &str); 37] = [
    (Op::Add, "add"), (Op::Sub, "sub"), (Op::Mul, "mul"), (Op::Div, "div"), (Op::Fmod, "fmod"), (Op::Rem, "rem"),
    (Op::Fma, "fma"), (Op::Rint, "rint"), (Op::Next, "next"), (Op::Prev, "prev"), (Op::Cmp, "cmp"),
    (Op::Class, "class"), (Op::Conv, "conv"), (Op::ToInt, "toint"), (Op::FromInt, "fromint"), (Op::Parse, "parse"),
    (Op::Show, "show"), (Op::Scale, "scale"), (Op::ILogB, "ilogb"), (Op::Frexp, "frexp"), (Op::Inv, "inv"),
    (Op::Const, "const"), (Op::NaN, "nan"), (Op::Row, "row"), (Op::Row1, "row1"), (Op::Neg, "neg"),
    (Op::Abs, "abs"), (Op::CopySign, "copysign"), (Op::Meta, "meta"), (Op::Begin, "begin"), (Op::Load, "load"),
    (Op::Named, "named"), (Op::Copy, "copy"), (Op::Pick, "pick"), (Op::Fresh, "fresh"), (Op::Reset, "reset"), (Op::Dump, "dump"),
];
impl Op {
    pub fn name(self) -> &'static str {
        OPS.iter().find(|x| x.0 == self).unwrap().1
    }
    pub fn of(s: &str) -> Op {
        OPS.iter().find(|x| x.1 == s).unwrap_or_else(|| panic!("op {s}")).0
    }
}

pub const RMS: [&str; 5] = ["NE", "NA", "TP", "TN", "TZ"];
pub fn round(rm: u8) -> Round {
    match rm {
        0 => Round::NearestTiesToEven,
        1 => Round::NearestTiesToAway,
        2 => Round::TowardPositive,
        3 => Round::TowardNegative,
        _ => Round::TowardZero,
    }
}

/// An event's inputs.  `form`: 0 the explicit-rounding method, 1 the operator or default-rounding method,
/// 2 the assignment operator (nearest-even, no status).
#[derive(Clone, Debug)]
pub struct Ev {
    pub op: Op,
    pub of: Op,
    pub f: &'static str,
    pub g: &'static str,
    pub rm: u8,
    pub form: u8,
    pub a: u128,
    pub b: u128,
    pub c: u128,
    pub n: i32,
    pub w: i32,
    pub sg: bool,
    pub hasp: bool,
    pub neg: bool, // sign of an integer input
    /// Registers of a step of a history: destination and operands (-1: none).
    pub rd: i8,
    pub rs: [i8; 3],
    pub s: String,
}
impl Ev {
    pub fn new(op: Op, f: &'static str) -> Ev {
        Ev {
            op, of: op, f, g: "", rm: 0, form: 0, a: 0, b: 0, c: 0, n: 0, w: 0, sg: false, hasp: false, neg: false,
            rd: -1, rs: [-1; 3],
            s: String::new(),
        }
    }
}

pub fn codes(s: &str) -> String {
    let mut r = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        if i > 0 {
            r.push('.');
        }
        write!(r, "{:x}", c as u32).unwrap();
    }
    r
}

fn st(s: Status) -> u8 {
    s.bits()
}
fn b(x: bool) -> u8 {
    x as u8
}
fn ord(o: Option<Ordering>) -> &'static str {
    match o {
        None => "un",
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
    }
}
fn zi(z: i128) -> String {
    if z < 0 { format!("#-{:x}", z.unsigned_abs()) } else { format!("#{:x}", z) }
}

fn binop<T: Float>(op: Op, form: u8, rm: u8, x: T, y: T) -> (T, Option<Status>) {
    let r = round(rm);
    let two = |q: StatusAnd<T>| (q.value, Some(q.status));
    match (op, form) {
        (Op::Add, 0) => two(x.add_r(y, r)),
        (Op::Sub, 0) => two(x.sub_r(y, r)),
        (Op::Mul, 0) => two(x.mul_r(y, r)),
        (Op::Div, 0) => two(x.div_r(y, r)),
        (Op::Fmod, 0) => two(x.c_fmod(y)),
        (Op::Rem, _) => two(x.ieee_rem(y)),
        (Op::Add, 1) => two(x + y),
        (Op::Sub, 1) => two(x - y),
        (Op::Mul, 1) => two(x * y),
        (Op::Div, 1) => two(x / y),
        (Op::Fmod, 1) => two(x % y),
        (op, _) => {
            let mut z = x;
            match op {
                Op::Add => z += y,
                Op::Sub => z -= y,
                Op::Mul => z *= y,
                Op::Div => z /= y,
                Op::Fmod => z %= y,
                _ => unreachable!(),
            }
            (z, None)
        }
    }
}
fn unop<T: Float>(op: Op, rm: u8, x: T) -> (T, Option<Status>) {
    let two = |q: StatusAnd<T>| (q.value, Some(q.status));
    match op {
        Op::Rint => two(x.round_to_integral(round(rm))),
        Op::Next => two(x.next_up()),
        Op::Prev => two(x.next_down()),
        _ => unreachable!(),
    }
}
fn rst<T: Float>(q: (T, Option<Status>)) -> String {
    match q.1 {
        Some(s) => format!("r=#{:x} st={}", q.0.to_bits(), st(s)),
        None => format!("r=#{:x}", q.0.to_bits()),
    }
}

fn class<T: Float>(x: T) -> String {
    let cat = match x.category() {
        Category::Zero => "zero",
        Category::Normal => "num",
        Category::Infinity => "inf",
        Category::NaN => "nan",
    };
    let q = [
        x.is_negative(), x.is_denormal(), x.is_signaling(), x.is_nan(), x.is_infinite(), x.is_zero(), x.is_normal(),
        x.is_finite(), x.is_non_zero(), x.is_finite_non_zero(), x.is_pos_zero(), x.is_neg_zero(),
        x.is_pos_infinity(), x.is_neg_infinity(), x.is_smallest(), x.is_smallest_normalized(), x.is_largest(),
        x.is_integer(),
    ];
    let qs: Vec<String> = q.iter().map(|v| (*v as u8).to_string()).collect();
    format!(
        "cat={} q=[{}] rt=#{:x} ng=#{:x} ab=#{:x}",
        cat,
        qs.join(","),
        x.to_bits(),
        (-x).to_bits(),
        x.abs().to_bits()
    )
}

/// Everything except float-to-float conversion.  The outputs are appended as "key=value" fields; `out` receives the
/// produced value object when there is one (histories keep it without re-encoding).
pub fn run_float<T: Float + std::fmt::Debug>(e: &Ev, x: T, y: T, z: T, out: &mut Option<(T, Option<Status>)>) -> String {
    let r = round(e.rm);
    match e.op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Fmod | Op::Rem => {
            let q = binop(e.op, e.form, e.rm, x, y);
            *out = Some(q);
            rst(q)
        }
        Op::Fma => {
            let q = if e.form == 0 { x.mul_add_r(y, z, r) } else { x.mul_add(y, z) };
            *out = Some((q.value, Some(q.status)));
            rst((q.value, Some(q.status)))
        }
        Op::Rint | Op::Next | Op::Prev => {
            let q = unop(e.op, e.rm, x);
            *out = Some(q);
            rst(q)
        }
        Op::Neg => {
            *out = Some((-x, None));
            format!("r=#{:x}", (-x).to_bits())
        }
        Op::Abs => {
            *out = Some((x.abs(), None));
            format!("r=#{:x}", x.abs().to_bits())
        }
        Op::CopySign => {
            *out = Some((x.copy_sign(y), None));
            format!("r=#{:x}", x.copy_sign(y).to_bits())
        }
        Op::Cmp => {
            let mag = if x.is_finite_non_zero() && y.is_finite_non_zero() {
                ord(Some(x.cmp_abs_normal(y)))
            } else {
                "na"
            };
            format!(
                "o={} rel=[{},{},{},{},{},{}] mag={} beq={} mn=#{:x} mx=#{:x} mi=#{:x} ma=#{:x}",
                ord(x.partial_cmp(&y)),
                b(x == y), b(x != y), b(x < y), b(x <= y), b(x > y), b(x >= y),
                mag,
                b(x.bitwise_eq(y)),
                x.min(y).to_bits(), x.max(y).to_bits(), x.minimum(y).to_bits(), x.maximum(y).to_bits()
            )
        }
        Op::Class => class(x),
        Op::ToInt => {
            let w = e.w as usize;
            // The exactness output must be written whatever it held before.
            let mut ex = e.n & 1 == 1;
            match (e.sg, e.form) {
                (false, 0) => {
                    let q = x.to_u128_r(w, r, &mut ex);
                    format!("z=#{:x} st={} ex={}", q.value, st(q.status), b(ex))
                }
                (true, 0) => {
                    let q = x.to_i128_r(w, r, &mut ex);
                    format!("z={} st={} ex={}", zi(q.value), st(q.status), b(ex))
                }
                (false, _) => {
                    let q = x.to_u128(w);
                    format!("z=#{:x} st={}", q.value, st(q.status))
                }
                (true, _) => {
                    let q = x.to_i128(w);
                    format!("z={} st={}", zi(q.value), st(q.status))
                }
            }
        }
        Op::FromInt => {
            let q: StatusAnd<T> = match (e.sg, e.form) {
                (false, 0) => T::from_u128_r(e.a, r),
                (false, _) => T::from_u128(e.a),
                (true, f) => {
                    let z = if e.neg { (e.a as i128).wrapping_neg() } else { e.a as i128 };
                    if f == 0 { T::from_i128_r(z, r) } else { T::from_i128(z) }
                }
            };
            *out = Some((q.value, Some(q.status)));
            rst((q.value, Some(q.status)))
        }
        Op::Parse => {
            if e.form == 0 {
                match T::from_str_r(&e.s, r) {
                    Ok(q) => {
                        *out = Some((q.value, Some(q.status)));
                        format!("ok=1 {}", rst((q.value, Some(q.status))))
                    }
                    Err(m) => format!("ok=0 err=~{}", m.0.replace(' ', "_")),
                }
            } else {
                match e.s.parse::<T>() {
                    Ok(q) => {
                        *out = Some((q, None));
                        format!("ok=1 r=#{:x}", q.to_bits())
                    }
                    Err(m) => format!("ok=0 err=~{}", m.0.replace(' ', "_")),
                }
            }
        }
        Op::Show => {
            // n: precision (-1 absent), w: width (-1 absent), sg: alternate
            let (p, w) = (e.n as usize, e.w as usize);
            let s = match (e.n >= 0, e.w >= 0, e.sg) {
                (false, false, false) => format!("{}", x),
                (false, false, true) => format!("{:#}", x),
                (false, true, false) => format!("{:w$}", x),
                (false, true, true) => format!("{:#w$}", x),
                (true, false, false) => format!("{:.p$}", x),
                (true, false, true) => format!("{:#.p$}", x),
                (true, true, false) => format!("{:w$.p$}", x),
                (true, true, true) => format!("{:#w$.p$}", x),
            };
            if e.n < 0 && e.w < 0 && !e.sg {
                // The debugging text: its part that shows no internals.
                let d = format!("{:?}", x);
                let cut = d.find('|').map_or(d.len(), |i| (i + 3).min(d.len()));
                return format!("s={} db={}", codes(&s), codes(&d[..cut]));
            }
            format!("s={}", codes(&s))
        }
        Op::Scale => {
            let q = if e.form == 0 { x.scalbn_r(e.n, r) } else { x.scalbn(e.n) };
            *out = Some((q, None));
            format!("r=#{:x}", q.to_bits())
        }
        Op::ILogB => format!("i={}", x.ilogb()),
        Op::Frexp => {
            let mut i = 0x5a5a;
            let q = if e.form == 0 { x.frexp_r(&mut i, r) } else { x.frexp(&mut i) };
            *out = Some((q, None));
            format!("r=#{:x} i={}", q.to_bits(), i)
        }
        Op::Inv => match x.get_exact_inverse() {
            None => "has=0".to_string(),
            Some(q) => {
                *out = Some((q, None));
                format!("has=1 r=#{:x}", q.to_bits())
            }
        },
        Op::NaN => {
            let pay = if e.hasp { Some(e.a) } else { None };
            let q = if e.sg { T::snan(pay) } else { T::qnan(pay) };
            *out = Some((q, None));
            format!("r=#{:x} {}", q.to_bits(), class(q))
        }
        Op::Const => format!(
            "k=[{},{},{},{}] zero=#{:x} inf=#{:x} nan=#{:x} lg=#{:x} sm=#{:x} sn=#{:x} df=#{:x}",
            T::BITS, T::PRECISION, T::MAX_EXP, T::MIN_EXP,
            T::ZERO.to_bits(), T::INFINITY.to_bits(), T::NAN.to_bits(), T::largest().to_bits(),
            T::SMALLEST.to_bits(), T::smallest_normalized().to_bits(), T::default().to_bits()
        ),
        Op::Row => {
            // a op b for every b of a format of at most 8 bits
            let n = 1u128 << e.w;
            let mut rs = String::new();
            let mut ss = String::new();
            for i in 0..n {
                let yb = T::from_bits(i);
                let (v, s) = match e.of {
                    Op::Fma => {
                        let q = x.mul_add_r(yb, z, r);
                        (q.value, Some(q.status))
                    }
                    of => binop(of, e.form, e.rm, x, yb),
                };
                let sep = if i == 0 { "" } else { "," };
                write!(rs, "{sep}#{:x}", v.to_bits()).unwrap();
                write!(ss, "{sep}{}", s.map_or(-1, |s| st(s) as i32)).unwrap();
            }
            format!("rs=[{rs}] ss=[{ss}]")
        }
        Op::Row1 => row1(e, |i| cell(e, T::from_bits(i))),
        Op::Meta => meta(e),
        Op::Load => {
            *out = Some((x, None));
            format!("r=#{:x}", x.to_bits())
        }
        Op::Named => {
            let q = match e.n {
                0 => T::ZERO,
                1 => T::INFINITY,
                2 => T::NAN,
                3 => T::largest(),
                4 => T::SMALLEST,
                5 => T::smallest_normalized(),
                _ => T::default(),
            };
            *out = Some((q, None));
            format!("r=#{:x}", q.to_bits())
        }
        Op::Copy => {
            *out = Some((x, None));
            format!("r=#{:x}", x.to_bits())
        }
        Op::Pick => {
            let q = match e.n {
                0 => x.min(y),
                1 => x.max(y),
                2 => x.minimum(y),
                _ => x.maximum(y),
            };
            *out = Some((q, None));
            format!("r=#{:x}", q.to_bits())
        }
        Op::Fresh => {
            // the live value against the one its bits denote
            let q = T::from_bits(x.to_bits());
            format!("beq={} cls={} eq={}", b(x.bitwise_eq(q) && q.bitwise_eq(x)), b(class(x) == class(q)), b(x == q))
        }
        Op::Conv | Op::Begin | Op::Reset | Op::Dump => unreachable!(),
    }
}

/// `of` applied to 2^w consecutive patterns from `a` on: what each delivers, packed into an integer and a small number.
fn row1(e: &Ev, mut cell: impl FnMut(u128) -> (String, i64)) -> String {
    let mut rs = String::new();
    let mut ss = String::new();
    for i in 0..1u128 << e.w {
        let (v, s) = cell(e.a + i);
        let sep = if i == 0 { "" } else { "," };
        write!(rs, "{sep}{v}").unwrap();
        write!(ss, "{sep}{s}").unwrap();
    }
    format!("rs=[{rs}] ss=[{ss}]")
}
fn cell<T: Float>(e: &Ev, x: T) -> (String, i64) {
    let r = round(e.rm);
    let hex = |v: T| format!("#{:x}", v.to_bits());
    match e.of {
        Op::ILogB => ("#0".into(), x.ilogb() as i64),
        Op::Scale => (hex(x.scalbn_r(e.n, r)), 0),
        Op::Frexp => {
            let mut i = 0x5a5a;
            let q = x.frexp_r(&mut i, r);
            (hex(q), i as i64)
        }
        Op::Inv => match x.get_exact_inverse() {
            None => ("#0".into(), 0),
            Some(q) => (hex(q), 1),
        },
        Op::ToInt => {
            let (mut ex, w) = (e.n & 1 == 1, e.c as usize);
            let (z, s) = if e.sg {
                let q = x.to_i128_r(w, r, &mut ex);
                (zi(q.value), q.status)
            } else {
                let q = x.to_u128_r(w, r, &mut ex);
                (format!("#{:x}", q.value), q.status)
            };
            (z, st(s) as i64 + 32 * b(ex) as i64)
        }
        of => {
            let (v, s) = unop(of, e.rm, x);
            (hex(v), s.map_or(-1, |s| st(s) as i64))
        }
    }
}
/// The same for conversions: the fields of each call's outcome.
fn conv_cell(s: &str) -> (String, i64) {
    let m: std::collections::HashMap<&str, &str> = s.split(' ').filter_map(|x| x.split_once('=')).collect();
    let n = |k: &str| m[k].parse::<i64>().unwrap();
    (m["r"].to_string(), n("st") + 32 * n("lo"))
}

/// Status sets, rounding directions, results with a status.
fn meta(e: &Ev) -> String {
    let x = Status::from_bits_truncate(e.n as u8);
    let y = Status::from_bits_truncate(e.w as u8);
    let mut z = x;
    z |= y;
    let q = x.and(e.a);
    let m = q.map(|v| v ^ 1);
    let mut sticky = y;
    let mut last = Status::OK;
    let _ = last;
    let v1 = rustc_apfloat::unpack!(sticky|=, q);
    let v2 = rustc_apfloat::unpack!(last=, q);
    let un = std::panic::catch_unwind(|| q.unwrap());
    let k = round(e.rm);
    let neg = RMS[(0..5u8).find(|i| round(*i) == -k).unwrap() as usize];
    format!(
        "or={} or2={} and={} has={} ok={} ms={} mv=#{:x} sk={} ls={} v1=#{:x} v2=#{:x} un={} nm={}",
        st(x | y), st(z), st(x & y), b(x.contains(y)), b(x == Status::OK), st(m.status), m.value, st(sticky), st(last),
        v1, v2,
        match un {
            Ok(v) if v == e.a => 1,
            Ok(_) => 2,
            Err(_) => 0,
        },
        neg
    )
}

fn conv<A: Float + FloatConvert<B>, B: Float>(e: &Ev, x: A, out: &mut Option<(B, Option<Status>)>) -> String {
    // The loses-info output must be written whatever it held before.
    let mut lo = e.n & 1 == 1;
    let q: StatusAnd<B> = if e.form == 0 { x.convert_r(round(e.rm), &mut lo) } else { x.convert(&mut lo) };
    *out = Some((q.value, Some(q.status)));
    format!("{} lo={}", rst((q.value, Some(q.status))), b(lo))
}

macro_rules! conv_to {
    ($e:ident, $src:ty, $x:expr, $($g:ident : $t:ty;)*) => {
        match $e.g {
            $(stringify!($g) => {
                let mut o = None;
                let s = conv::<$src, $t>($e, $x, &mut o);
                let (v, st) = o.unwrap();
                (s, Box::new(v) as Box<dyn Any>, st)
            })*
            _ => panic!("target {}", $e.g),
        }
    };
}
macro_rules! hub_targets {
    ($e:ident, $src:ty, $x:expr) => {
        conv_to!($e, $src, $x,
            f16: rustc_apfloat::ieee::Half; f32: rustc_apfloat::ieee::Single; f64: rustc_apfloat::ieee::Double;
            f128: rustc_apfloat::ieee::Quad; bf16: rustc_apfloat::ieee::BFloat; e5m2: rustc_apfloat::ieee::Float8E5M2;
            e4m3: rustc_apfloat::ieee::Float8E4M3FN; x87: rustc_apfloat::ieee::X87DoubleExtended;
            u7: U7; n7: N7; u20: U20; n16: N16; u72: U72; u127: U127; n128: N128; u14: U14; s8: S8; s16: S16; s80: S80; w40: W40; w60: W60;)
    };
}
/// Formats that are targets of conversions.
pub const CONV_TARGETS: [&str; 21] = [
    "f16", "f32", "f64", "f128", "bf16", "e5m2", "e4m3", "x87", "u7", "n7", "u20", "n16", "u72", "u127", "n128", "u14", "s8", "s16",
    "s80", "w40", "w60",
];

fn float<T: Float + std::fmt::Debug>(e: &Ev) -> String {
    run_float::<T>(e, T::from_bits(e.a_bits()), T::from_bits(e.b), T::from_bits(e.c), &mut None)
}
macro_rules! dispatch {
    ($e:ident; $($n:ident: $t:ty, $b:literal, $eb:literal, $k:ident;)*) => {
        match $e.f {
            $(stringify!($n) => {
                if $e.op == Op::Conv {
                    hub_targets!($e, $t, <$t>::from_bits($e.a)).0
                } else if $e.op == Op::Row1 && $e.of == Op::Conv {
                    row1($e, |i| conv_cell(&hub_targets!($e, $t, <$t>::from_bits(i)).0))
                } else {
                    float::<$t>($e)
                }
            })*
            "dd" => float::<DoubleDouble>($e),
            "dds" => float::<DDS>($e),
            "ddb" => float::<DDB>($e),
            "dd8" => float::<DD8>($e),
            "dd7" => float::<DD7>($e),
            _ => panic!("format {}", $e.f),
        }
    };
}

/// The registers of a history: live values, never rebuilt from their bits.
pub struct Bank {
    pub regs: Vec<Option<Box<dyn Any>>>,
    pub sk: Status,
}
pub const NREGS: usize = 12;
impl Bank {
    pub fn new() -> Bank {
        Bank { regs: (0..NREGS).map(|_| None).collect(), sk: Status::OK }
    }
    fn get<T: Float + 'static>(&self, r: i8) -> T {
        if r < 0 {
            return T::ZERO;
        }
        *self.regs[r as usize].as_ref().expect("register").downcast_ref::<T>().expect("register's format")
    }
}
fn live<T: Float + std::fmt::Debug + 'static>(e: &Ev, bank: &mut Bank) -> String {
    let x = if e.op == Op::Load { T::from_bits(e.a) } else { bank.get::<T>(e.rs[0]) };
    let mut out = None;
    let s = run_float::<T>(e, x, bank.get(e.rs[1]), bank.get(e.rs[2]), &mut out);
    match out {
        Some((v, Some(st))) => {
            let mut sk = bank.sk;
            let v = rustc_apfloat::unpack!(sk|=, st.and(v));
            bank.sk = sk;
            if e.rd >= 0 {
                bank.regs[e.rd as usize] = Some(Box::new(v));
            }
        }
        Some((v, None)) if e.rd >= 0 => bank.regs[e.rd as usize] = Some(Box::new(v)),
        _ => {}
    }
    if e.op == Op::ToInt {
        // a status without a value to keep
        let v = s.split(" st=").nth(1).unwrap().split(' ').next().unwrap().parse().unwrap();
        bank.sk |= Status::from_bits_truncate(v);
    }
    s
}
macro_rules! live_dispatch {
    ($e:ident, $bank:ident; $($n:ident: $t:ty, $b:literal, $eb:literal, $k:ident;)*) => {
        match $e.f {
            $(stringify!($n) => {
                if $e.op == Op::Conv {
                    let x: $t = $bank.get($e.rs[0]);
                    let (s, v, st) = hub_targets!($e, $t, x);
                    if let Some(st) = st {
                        $bank.sk |= st;
                    }
                    if $e.rd >= 0 {
                        $bank.regs[$e.rd as usize] = Some(v);
                    }
                    s
                } else {
                    live::<$t>($e, $bank)
                }
            })*
            "dd" => live::<DoubleDouble>($e, $bank),
            "dds" => live::<DDS>($e, $bank),
            "ddb" => live::<DDB>($e, $bank),
            "dd8" => live::<DD8>($e, $bank),
            "dd7" => live::<DD7>($e, $bank),
            _ => panic!("format {}", $e.f),
        }
    };
}
macro_rules! bits_of {
    ($v:ident; $($n:ident: $t:ty, $b:literal, $eb:literal, $k:ident;)*) => {{
        $(if let Some(x) = $v.downcast_ref::<$t>() { return x.to_bits(); })*
        if let Some(x) = $v.downcast_ref::<DoubleDouble>() { return x.to_bits(); }
        if let Some(x) = $v.downcast_ref::<DDS>() { return x.to_bits(); }
        if let Some(x) = $v.downcast_ref::<DDB>() { return x.to_bits(); }
        if let Some(x) = $v.downcast_ref::<DD8>() { return x.to_bits(); }
        if let Some(x) = $v.downcast_ref::<DD7>() { return x.to_bits(); }
        panic!("register type")
    }};
}
fn bits_of(v: &dyn Any) -> u128 {
    for_formats!(bits_of v;)
}
/// One step of a history.
pub fn step(e: &Ev, bank: &mut Bank) -> String {
    let s = match e.op {
        Op::Begin => {
            *bank = Bank::new();
            String::new()
        }
        Op::Reset => {
            bank.sk = Status::OK;
            String::new()
        }
        Op::Dump => {
            let d: Vec<String> = bank
                .regs
                .iter()
                .map(|v| v.as_ref().map_or("-1".to_string(), |v| format!("#{:x}", bits_of(v.as_ref()))))
                .collect();
            format!("d=[{}] ", d.join(","))
        }
        _ => format!("{} ", for_formats!(live_dispatch e, bank;)),
    };
    format!("{s}sk={}", st(bank.sk))
}

impl Ev {
    /// FromInt and NaN use `a` as an integer, not as an operand's bits.
    fn a_bits(&self) -> u128 {
        if matches!(self.op, Op::FromInt | Op::NaN | Op::Parse | Op::Const) { 0 } else { self.a }
    }
}

pub fn run(e: &Ev) -> String {
    for_formats!(dispatch e;)
}

/// The inputs of an event as trace fields.
pub fn inputs(e: &Ev) -> String {
    if e.rd >= 0 || e.rs[0] >= 0 || matches!(e.op, Op::Begin | Op::Reset | Op::Dump) {
        return step_inputs(e);
    }
    let mut s = format!("op={} f={}", e.op.name(), e.f);
    let w = &mut s;
    let rm = RMS[e.rm as usize];
    match e.op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Fmod | Op::Rem => {
            write!(w, " rm={rm} form={} a=#{:x} b=#{:x}", e.form, e.a, e.b)
        }
        Op::Fma => write!(w, " rm={rm} form={} a=#{:x} b=#{:x} c=#{:x}", e.form, e.a, e.b, e.c),
        Op::Rint | Op::Next | Op::Prev => write!(w, " rm={rm} a=#{:x}", e.a),
        Op::Neg | Op::Abs => write!(w, " a=#{:x}", e.a),
        Op::CopySign => write!(w, " a=#{:x} b=#{:x}", e.a, e.b),
        Op::Cmp => write!(w, " a=#{:x} b=#{:x}", e.a, e.b),
        Op::Class | Op::ILogB | Op::Inv => write!(w, " a=#{:x}", e.a),
        Op::Conv => write!(w, " g={} rm={rm} form={} n={} a=#{:x}", e.g, e.form, e.n, e.a),
        Op::ToInt => write!(w, " rm={rm} form={} sg={} w={} n={} a=#{:x}", e.form, b(e.sg), e.w, e.n, e.a),
        Op::FromInt => write!(
            w,
            " rm={rm} form={} sg={} a=#{}{:x}",
            e.form,
            b(e.sg),
            if e.neg { "-" } else { "" },
            e.a
        ),
        Op::Parse => write!(w, " rm={rm} form={} t={}", e.form, codes(&e.s)),
        Op::Show => write!(w, " n={} w={} alt={} a=#{:x}", e.n, e.w, b(e.sg), e.a),
        Op::Scale => write!(w, " rm={rm} form={} n={} a=#{:x}", e.form, e.n, e.a),
        Op::Frexp => write!(w, " rm={rm} form={} a=#{:x}", e.form, e.a),
        Op::NaN => write!(w, " sg={} hasp={} a=#{:x}", b(e.sg), b(e.hasp), e.a),
        Op::Const => Ok(()),
        Op::Meta => write!(w, " n={} w={} rm={rm} a=#{:x}", e.n, e.w, e.a),
        Op::Row => write!(w, " of={} rm={rm} form={} w={} a=#{:x} c=#{:x}", e.of.name(), e.form, e.w, e.a, e.c),
        Op::Row1 => {
            write!(w, " of={} rm={rm} w={} a=#{:x}", e.of.name(), e.w, e.a).unwrap();
            match e.of {
                Op::Conv => write!(w, " g={} form=0 n={}", e.g, e.n),
                Op::Scale => write!(w, " n={}", e.n),
                Op::ToInt => write!(w, " sg={} n={} c=#{:x}", b(e.sg), e.n, e.c),
                _ => Ok(()),
            }
        }
        _ => unreachable!(),
    }
    .unwrap();
    s
}

/// The same for a step of a history: registers take the place of operand bits.
fn step_inputs(e: &Ev) -> String {
    let mut s = format!("op={}", e.op.name());
    if matches!(e.op, Op::Begin | Op::Reset | Op::Dump) {
        return s;
    }
    let rm = RMS[e.rm as usize];
    let w = &mut s;
    write!(w, " f={}", e.f).unwrap();
    for (k, r) in [("rd", e.rd), ("ra", e.rs[0]), ("rb", e.rs[1]), ("rc", e.rs[2])] {
        if r >= 0 {
            write!(w, " {k}={r}").unwrap();
        }
    }
    let sign = if e.neg { "-" } else { "" };
    match e.op {
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Fmod | Op::Rem | Op::Fma | Op::Frexp => {
            write!(w, " rm={rm} form={}", e.form)
        }
        Op::Rint | Op::Next | Op::Prev => write!(w, " rm={rm}"),
        Op::Conv => write!(w, " g={} rm={rm} form={} n={}", e.g, e.form, e.n),
        Op::ToInt => write!(w, " rm={rm} form={} sg={} w={} n={}", e.form, b(e.sg), e.w, e.n),
        Op::FromInt => write!(w, " rm={rm} form={} sg={} a=#{sign}{:x}", e.form, b(e.sg), e.a),
        Op::Parse => write!(w, " rm={rm} form={} t={}", e.form, codes(&e.s)),
        Op::Show => write!(w, " n={} w={} alt={}", e.n, e.w, b(e.sg)),
        Op::Scale => write!(w, " rm={rm} form={} n={}", e.form, e.n),
        Op::NaN => write!(w, " sg={} hasp={} a=#{:x}", b(e.sg), b(e.hasp), e.a),
        Op::Load => write!(w, " a=#{:x}", e.a),
        Op::Named | Op::Pick => write!(w, " n={}", e.n),
        _ => Ok(()),
    }
    .unwrap();
    s
}

/// Reads the inputs back from a trace line (replay).
pub fn parse_event(line: &str) -> Ev {
    let mut m = std::collections::HashMap::new();
    for f in line.split_whitespace() {
        if let Some((k, v)) = f.split_once('=') {
            m.insert(k, v);
        }
    }
    let leak = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
    let mut e = Ev::new(Op::of(m["op"]), m.get("f").map_or("f32", |s| leak(s)));
    for (k, v) in [("rd", 0usize), ("ra", 1), ("rb", 2), ("rc", 3)] {
        if let Some(x) = m.get(k) {
            let x = x.parse().unwrap();
            if v == 0 { e.rd = x } else { e.rs[v - 1] = x }
        }
    }
    let hex = |s: &str| u128::from_str_radix(s.trim_start_matches('#').trim_start_matches('-'), 16).unwrap();
    if let Some(v) = m.get("of") { e.of = Op::of(v) }
    if let Some(v) = m.get("g") { e.g = leak(v) }
    if let Some(v) = m.get("rm") { e.rm = RMS.iter().position(|x| x == v).unwrap() as u8 }
    if let Some(v) = m.get("form") { e.form = v.parse().unwrap() }
    if let Some(v) = m.get("a") {
        e.a = hex(v);
        e.neg = v.starts_with("#-");
    }
    if let Some(v) = m.get("b") { e.b = hex(v) }
    if let Some(v) = m.get("c") { e.c = hex(v) }
    if let Some(v) = m.get("n") { e.n = v.parse().unwrap() }
    if let Some(v) = m.get("w") { e.w = v.parse().unwrap() }
    if let Some(v) = m.get("sg").or(m.get("alt")) { e.sg = *v == "1" }
    if let Some(v) = m.get("hasp") { e.hasp = *v == "1" }
    if let Some(v) = m.get("t") {
        e.s = v[1..].split('.').filter(|x| !x.is_empty())
            .map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect();
    }
    e
}
