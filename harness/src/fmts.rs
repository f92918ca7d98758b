//! Formats: the built-in ones, formats declared here through the public `Semantics` trait, and double-double.
use rustc_apfloat::ppc::DoubleFloat;
use rustc_apfloat::ieee::{self, IeeeFloat, NonfiniteBehavior, Semantics};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ieee,
    NanOnly,
    X87,
    DD,
}

/// Parameters of a format (used by the generators only).
#[derive(Clone, Copy, Debug)]
pub struct P {
    pub name: &'static str,
    pub bits: u32,
    pub eb: u32,
    pub p: u32,
    pub emin: i32,
    pub emax: i32,
    pub kind: Kind,
}

pub const fn params(name: &'static str, bits: u32, eb: u32, kind: Kind) -> P {
    let p = match kind {
        Kind::X87 => bits - eb - 1,
        Kind::DD => 106,
        _ => bits - eb,
    };
    let bias = (1i32 << (eb - 1)) - 1;
    let k = shift(name);
    P {
        name,
        bits,
        eb,
        p,
        emin: 1 - bias + k,
        emax: (if matches!(kind, Kind::NanOnly) { bias + 1 } else { bias }) + k,
        kind,
    }
}
/// By how much a declared format moves its exponent range.
pub const fn shift(name: &str) -> i32 {
    match name.as_bytes() {
        b"s7" => -3,
        b"s8" => -4,
        b"s16" => 9,
        b"s40" => -40,
        b"s80" => 5000,
        _ => 0,
    }
}

macro_rules! declared {
    ($($s:ident = $bits:literal : $eb:literal $nf:ident;)*) => {
        $(
            pub struct $s;
            impl Semantics for $s {
                const BITS: usize = $bits;
                const EXP_BITS: usize = $eb;
                const NONFINITE_BEHAVIOR: NonfiniteBehavior = NonfiniteBehavior::$nf;
            }
        )*
    };
}
declared! {
    U6S = 6:3 IEEE754;
    U7S = 7:4 IEEE754;
    N6S = 6:3 NanOnly;
    N7S = 7:3 NanOnly;
    U8S = 8:4 IEEE754;
    N8S = 8:5 NanOnly;
    U20S = 20:5 IEEE754;
    N16S = 16:5 NanOnly;
    U40S = 40:8 IEEE754;
    N32S = 32:8 NanOnly;
    U72S = 72:11 IEEE754;
    U79S = 79:15 IEEE754;
    U96S = 96:15 IEEE754;
    U127S = 127:8 IEEE754;
    U128S = 128:10 IEEE754;
    U54S = 54:5 IEEE754;
    U14S = 14:6 IEEE754;
    N128S = 128:15 NanOnly;
    W40S = 40:20 IEEE754;
    W60S = 60:19 NanOnly;
}

macro_rules! shifted {
    ($($s:ident = $name:literal $bits:literal : $eb:literal $nf:ident;)*) => {
        $(
            pub struct $s;
            impl Semantics for $s {
                const BITS: usize = $bits;
                const EXP_BITS: usize = $eb;
                const NONFINITE_BEHAVIOR: NonfiniteBehavior = NonfiniteBehavior::$nf;
                const MIN_EXP: i32 = Self::IEEE_MIN_EXP + shift($name);
            }
        )*
    };
}
shifted! {
    S7S = "s7" 7:4 IEEE754;
    S8S = "s8" 8:4 NanOnly;
    S16S = "s16" 16:6 IEEE754;
    S40S = "s40" 40:8 IEEE754;
    S80S = "s80" 80:14 NanOnly;
}

/// `for_formats!(mac)` calls `mac! { name: Type, ... }` for the IEEE-style formats.
#[macro_export]
macro_rules! for_formats {
    ($m:ident $($x:tt)*) => {
        $m! { $($x)*
            f16: rustc_apfloat::ieee::Half, 16, 5, Ieee;
            f32: rustc_apfloat::ieee::Single, 32, 8, Ieee;
            f64: rustc_apfloat::ieee::Double, 64, 11, Ieee;
            f128: rustc_apfloat::ieee::Quad, 128, 15, Ieee;
            bf16: rustc_apfloat::ieee::BFloat, 16, 8, Ieee;
            e5m2: rustc_apfloat::ieee::Float8E5M2, 8, 5, Ieee;
            e4m3: rustc_apfloat::ieee::Float8E4M3FN, 8, 4, NanOnly;
            x87: rustc_apfloat::ieee::X87DoubleExtended, 80, 15, X87;
            u6: $crate::fmts::U6, 6, 3, Ieee;
            u7: $crate::fmts::U7, 7, 4, Ieee;
            n6: $crate::fmts::N6, 6, 3, NanOnly;
            n7: $crate::fmts::N7, 7, 3, NanOnly;
            u8: $crate::fmts::U8, 8, 4, Ieee;
            n8: $crate::fmts::N8, 8, 5, NanOnly;
            u20: $crate::fmts::U20, 20, 5, Ieee;
            n16: $crate::fmts::N16, 16, 5, NanOnly;
            u40: $crate::fmts::U40, 40, 8, Ieee;
            n32: $crate::fmts::N32, 32, 8, NanOnly;
            u72: $crate::fmts::U72, 72, 11, Ieee;
            u79: $crate::fmts::U79, 79, 15, Ieee;
            u96: $crate::fmts::U96, 96, 15, Ieee;
            u127: $crate::fmts::U127, 127, 8, Ieee;
            u128: $crate::fmts::U128, 128, 10, Ieee;
            u54: $crate::fmts::U54, 54, 5, Ieee;
            u14: $crate::fmts::U14, 14, 6, Ieee;
            n128: $crate::fmts::N128, 128, 15, NanOnly;
            s7: $crate::fmts::S7, 7, 4, Ieee;
            s8: $crate::fmts::S8, 8, 4, NanOnly;
            s16: $crate::fmts::S16, 16, 6, Ieee;
            s40: $crate::fmts::S40, 40, 8, Ieee;
            s80: $crate::fmts::S80, 80, 14, NanOnly;
            w40: $crate::fmts::W40, 40, 20, Ieee;
            w60: $crate::fmts::W60, 60, 19, NanOnly;
        }
    };
}
pub type U6 = IeeeFloat<U6S>;
pub type U7 = IeeeFloat<U7S>;
pub type N6 = IeeeFloat<N6S>;
pub type N7 = IeeeFloat<N7S>;
pub type U8 = IeeeFloat<U8S>;
pub type N8 = IeeeFloat<N8S>;
pub type U20 = IeeeFloat<U20S>;
pub type N16 = IeeeFloat<N16S>;
pub type U40 = IeeeFloat<U40S>;
pub type N32 = IeeeFloat<N32S>;
pub type U72 = IeeeFloat<U72S>;
pub type U79 = IeeeFloat<U79S>;
pub type U96 = IeeeFloat<U96S>;
pub type U127 = IeeeFloat<U127S>;
pub type U128 = IeeeFloat<U128S>;
pub type U54 = IeeeFloat<U54S>;
pub type U14 = IeeeFloat<U14S>;
pub type N128 = IeeeFloat<N128S>;
pub type S7 = IeeeFloat<S7S>;
pub type S8 = IeeeFloat<S8S>;
pub type S16 = IeeeFloat<S16S>;
pub type S40 = IeeeFloat<S40S>;
pub type S80 = IeeeFloat<S80S>;
pub type W40 = IeeeFloat<W40S>;
pub type W60 = IeeeFloat<W60S>;

pub const BUILTIN: [&str; 8] = ["f16", "f32", "f64", "f128", "bf16", "e5m2", "e4m3", "x87"];
pub const CUSTOM: [&str; 22] = [
    "u6", "u7", "n6", "n7", "u8", "n8", "u20", "n16", "u40", "n32", "u72", "u79", "u96", "u127", "u128", "u14", "n128", "s7", "s8",
    "s16", "s40", "s80",
];

/// Formats with very wide exponents: events of their own, most of them away from the ends of the range.
pub const WIDE: [&str; 2] = ["w40", "w60"];

macro_rules! mk_all {
    ($($n:ident: $t:ty, $b:literal, $e:literal, $k:ident;)*) => {
        pub const ALL: &[P] = &[$(params(stringify!($n), $b, $e, Kind::$k)),*];
    };
}
for_formats!(mk_all);
/// Double formats: DoubleDouble, and the same construction over other binary formats.
pub const DOUBLES: [&str; 5] = ["dd", "dds", "ddb", "dd8", "dd7"];
pub type DDS = DoubleFloat<ieee::Single>;
pub type DDB = DoubleFloat<ieee::BFloat>;
pub type DD8 = DoubleFloat<ieee::Float8E5M2>;
pub type DD7 = DoubleFloat<U7>;
pub fn dd_base(name: &str) -> P {
    fmt(match name {
        "dd" => "f64",
        "dds" => "f32",
        "ddb" => "bf16",
        "dd8" => "e5m2",
        "dd7" => "u7",
        _ => panic!("double format {name}"),
    })
}

pub fn fmt(name: &str) -> P {
    if let Some(n) = DOUBLES.iter().find(|n| **n == name) {
        let d = dd_base(name);
        let mut p = params(n, d.bits, d.eb, Kind::DD);
        p.p = 2 * d.p;
        return p;
    }
    *ALL.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("format {name}"))
}
