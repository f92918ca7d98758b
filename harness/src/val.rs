//! Operand generators, driven by format parameters only.
use crate::fmts::{Kind, P};
use crate::rng::Rng;

pub fn mask(n: u32) -> u128 {
    if n >= 128 { !0 } else { (1u128 << n) - 1 }
}
pub fn blen(x: u128) -> u32 {
    128 - x.leading_zeros()
}

impl P {
    pub fn tw(&self) -> u32 {
        self.bits - 1 - self.eb
    }
    pub fn emine(&self) -> i32 {
        self.emin - (self.p as i32 - 1)
    }
    pub fn sign_bit(&self) -> u128 {
        1 << (self.bits - 1)
    }
    /// Bits of (-1)^s * m * 2^e, truncating what does not fit; saturates at the top.
    pub fn enc(&self, s: u32, m: u128, e: i32) -> u128 {
        let sb = if s & 1 == 1 { self.sign_bit() } else { 0 };
        if m == 0 {
            return sb;
        }
        let k = e + blen(m) as i32 - 1; // floor log2
        let ulp = (k - (self.p as i32 - 1)).max(self.emine());
        let sh = e - ulp;
        let mut m = if sh >= 0 { m << sh.min(127) } else if -sh >= 128 { 0 } else { m >> -sh };
        if m == 0 {
            return sb;
        }
        let mut ulp = ulp;
        let hid = 1u128 << (self.p - 1);
        if k > self.emax {
            m = self.maxm();
            ulp = self.emax - (self.p as i32 - 1);
        }
        if ulp == self.emax - (self.p as i32 - 1) && m > self.maxm() {
            m = self.maxm();
        }
        let tw = self.tw();
        if m < hid {
            return sb | m;
        }
        let ef = (ulp + 1 - self.emine()) as u128;
        let t = if self.kind == Kind::X87 { m } else { m - hid };
        sb | ef << tw | t
    }
    pub fn maxm(&self) -> u128 {
        if self.kind == Kind::NanOnly { mask(self.p) - 1 } else { mask(self.p) }
    }
    /// (sign, m, e) of a finite non-zero pattern.
    pub fn dec(&self, b: u128) -> Option<(u32, u128, i32)> {
        let s = (b >> (self.bits - 1)) as u32 & 1;
        let tw = self.tw();
        let ef = (b >> tw & mask(self.eb)) as i32;
        let t = b & mask(tw);
        let all1 = ef == (1 << self.eb) - 1;
        if ef == 0 {
            return if t == 0 { None } else { Some((s, t, self.emine())) };
        }
        match self.kind {
            Kind::NanOnly if all1 && t == mask(tw) => return None,
            Kind::Ieee if all1 => return None,
            Kind::X87 if all1 || t >> 63 == 0 => return None,
            _ => {}
        }
        let m = if self.kind == Kind::X87 { t } else { t | 1 << tw };
        Some((s, m, ef - 1 + self.emine()))
    }
    pub fn inf(&self, s: u32) -> u128 {
        let ones = mask(self.eb) << self.tw();
        let t = match self.kind {
            Kind::X87 => 1 << 63,
            Kind::NanOnly => mask(self.tw()),
            _ => 0,
        };
        (if s & 1 == 1 { self.sign_bit() } else { 0 }) | ones | t
    }
}

/// A p-bit significand (top bit set) of some shape.
pub fn sig(r: &mut Rng, p: u32) -> u128 {
    let hid = 1u128 << (p - 1);
    let m = mask(p);
    let x = match r.below(10) {
        0 => 0,
        1 => m,
        2 => (0..r.below(3) + 1).fold(0, |a, _| a | 1 << r.below(p as u64)), // sparse
        3 => m & !(0..r.below(3) + 1).fold(0, |a, _| a | 1u128 << r.below(p as u64)), // dense
        4 => {
            let (i, j) = (r.below(p as u64 + 1) as u32, r.below(p as u64 + 1) as u32);
            mask(i) ^ mask(j) // one run of ones
        }
        5 => r.u128() & m & !mask(r.below(p as u64) as u32), // short
        6 => r.u128() & mask(r.below(p as u64) as u32 + 1), // small tail
        7 => m.wrapping_sub(r.below(8) as u128),
        _ => r.u128(),
    };
    (x & m) | hid
}
pub fn exp(r: &mut Rng, f: &P) -> i32 {
    let (lo, hi, p) = (f.emin as i64, f.emax as i64, f.p as i64);
    let e = match r.below(10) {
        0 => lo + r.range(-2, 3),
        1 => hi - r.range(0, 3),
        2 | 3 => r.range(-3, 3),
        4 => r.range(-p - 2, p + 2),
        5 => lo + r.range(0, p + 3),
        6 => hi - r.range(0, p + 3),
        7 => p + r.range(-3, 2),
        _ => r.range(lo, hi),
    };
    e.clamp(lo - p, hi) as i32
}
/// A finite non-zero value.
pub fn num(r: &mut Rng, f: &P) -> u128 {
    let s = r.below(2) as u32;
    if r.chance(1, 7) {
        // subnormal
        let k = r.below(f.p as u64 - 1) as u32 + 1;
        let m = if k == 1 { 1 } else { sig(r, k) };
        return f.enc(s, m, f.emine());
    }
    let e = exp(r, f);
    let m = sig(r, f.p);
    f.enc(s, m, e - (f.p as i32 - 1))
}
pub fn nan(r: &mut Rng, f: &P) -> u128 {
    let s = if r.chance(1, 2) { f.sign_bit() } else { 0 };
    let ones = mask(f.eb) << f.tw();
    match f.kind {
        Kind::NanOnly => s | ones | mask(f.tw()),
        Kind::X87 => {
            let t = match r.below(8) {
                0 => 3u128 << 62,
                1 => (1 << 63) | 1 << r.below(62),
                2 => 1 << r.below(63),
                3 => r.u64() as u128,
                4 => 0,
                5 => 1 << 62 | r.u64() as u128 & mask(62),
                6 => (1 << 63) | r.u64() as u128,
                // unnormal
                _ => {
                    let ef = r.range(1, (1 << 15) - 2) as u128;
                    return s | ef << 64 | (r.u64() >> 1) as u128;
                }
            };
            let t = if t == 1 << 63 { t | 1 } else { t };
            s | ones | t
        }
        _ => {
            let tw = f.tw();
            let q = 1u128 << (tw - 1);
            let t = match r.below(7) {
                0 => q,
                1 => 1,
                2 => q | 1 << r.below(tw as u64),
                3 => 1 << r.below(tw as u64),
                4 => mask(tw),
                5 => mask(tw - 1),
                _ => r.u128() & mask(tw),
            };
            s | ones | if t == 0 { q } else { t }
        }
    }
}
pub fn special(r: &mut Rng, f: &P) -> u128 {
    let s = r.below(2) as u32;
    let sb = if s == 1 { f.sign_bit() } else { 0 };
    let hid = 1u128 << (f.p - 1);
    match r.below(12) {
        0 | 1 => sb,
        2 | 3 => f.inf(s),
        4 | 5 => nan(r, f),
        6 => f.enc(s, f.maxm(), f.emax - (f.p as i32 - 1)),
        7 => f.enc(s, 1, f.emine()),
        8 => f.enc(s, hid, f.emine()),
        9 => f.enc(s, hid - 1, f.emine()),
        10 => f.enc(s, 1, 0),
        _ if f.kind == Kind::X87 => match r.below(3) {
            // pseudo-denormal, pseudo-infinity, unnormal zero
            0 => sb | 1 << 63 | (r.u64() >> 1) as u128,
            1 => sb | 0x7fff << 64,
            _ => sb | (r.below(0x7ffe) as u128 + 1) << 64 | (r.u64() >> 1) as u128,
        },
        _ => f.enc(s, hid | 1, f.emine()),
    }
}
/// Any pattern: mostly finite.
pub fn any(r: &mut Rng, f: &P) -> u128 {
    match r.below(12) {
        0 | 1 => special(r, f),
        2 => r.u128() & mask(f.bits),
        _ => num(r, f),
    }
}
/// Any pattern with more NaNs, infinities and zeros.
pub fn spec_any(r: &mut Rng, f: &P) -> u128 {
    match r.below(6) {
        0 | 1 => special(r, f),
        2 | 3 => nan(r, f),
        4 => r.u128() & mask(f.bits),
        _ => num(r, f),
    }
}

/// Double-double pairs: normalised ones, overlapping or unrelated ones, special ones.
pub fn dd(r: &mut Rng, d: &P) -> u128 {
    let pack = |a: u128, b: u128| a | b << d.bits;
    match r.below(16) {
        0 => {
            let (a, b) = (special(r, d), special(r, d));
            let b = if r.chance(1, 3) { b } else { 0 };
            pack(a, b)
        }
        1 => pack(any(r, d), any(r, d)),
        2 => pack(num(r, d), 0),
        3 => pack(special(r, d), 0),
        _ => dd_norm(r, d),
    }
}
/// hi + lo with |lo| <= ulp(hi)/2 (normalised apart from ties).
pub fn dd_norm(r: &mut Rng, d: &P) -> u128 {
    let q = d.p as i32 - 1;
    let span = (d.emax - 2).min(60) as i64;
    let pack = |a: u128, b: u128| a | b << d.bits;
    let hi = match r.below(6) {
        0 => d.enc(r.below(2) as u32, sig(r, d.p), d.emax - q - r.range(0, 2) as i32),
        1 => d.enc(r.below(2) as u32, sig(r, d.p), d.emine() + r.range(0, 2 * d.p as i64 + 4) as i32),
        2 | 3 => d.enc(r.below(2) as u32, sig(r, d.p), r.range(-span, span) as i32),
        _ => num(r, d),
    };
    let Some((_, _, e)) = d.dec(hi) else { return hi };
    let gap = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(0, 60),
        3 => r.range(0, 4),
        _ => r.range(0, 1100),
    } as i32;
    // |lo| < 2^(e-1) (half a unit of hi), top bit at e-2-gap
    let m = sig(r, d.p);
    let lo = match r.below(8) {
        0 => d.enc(r.below(2) as u32, 1, e - 1), // exactly half a unit
        1 => r.below(2) as u128 * d.sign_bit(),
        _ => d.enc(r.below(2) as u32, m, e - 2 - gap - q),
    };
    pack(hi, lo)
}
