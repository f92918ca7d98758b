//! Event generators, one per property.  All choices come from the seed.
use crate::big::{exact_decimal, Big};
use crate::fmts::*;
use crate::rng::Rng;
use crate::run::{Ev, Op, CONV_TARGETS};
use crate::val::*;

pub struct Gen {
    pub r: Rng,
    pub thorough: bool,
    pub again: bool,
}
pub type Sink<'a> = &'a mut dyn FnMut(Ev);

const BIN: [Op; 6] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Fmod, Op::Rem];

/// x^-1 mod 2^128 for odd x.
fn stat(name: &str) -> &'static P {
    ALL.iter().find(|p| p.name == name).unwrap()
}
fn inv_mod(x: u128) -> u128 {
    let mut y = x;
    for _ in 0..7 {
        y = y.wrapping_mul(2u128.wrapping_sub(x.wrapping_mul(y)));
    }
    y
}
/// High and low halves of a 128x128 product.
fn wide_mul(a: u128, b: u128) -> (u128, u128) {
    let (a1, a0, b1, b0) = (a >> 64, a & mask(64), b >> 64, b & mask(64));
    let (ll, lh, hl, hh) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
    let mid = (ll >> 64) + (lh & mask(64)) + (hl & mask(64));
    (hh + (lh >> 64) + (hl >> 64) + (mid >> 64), mid << 64 | ll & mask(64))
}
/// Top p bits of a product and the exponent of their unit.
fn top_bits(hi: u128, lo: u128, p: u32) -> (u128, i32) {
    let n = if hi != 0 { 128 + blen(hi) } else { blen(lo) };
    if n <= p {
        return (lo, 0);
    }
    let sh = n - p;
    let m = if sh >= 128 { hi >> (sh - 128) } else if sh == 0 { lo } else { hi << (128 - sh) | lo >> sh };
    (m & mask(p), sh as i32)
}

impl Gen {
    /// `tier`: quick or thorough; with a + appended, the complete tables have been walked already.
    pub fn new(seed: u64, prop: &str, tier: &str) -> Gen {
        let h = prop.bytes().fold(seed.wrapping_mul(1_000_003), |a, c| a.wrapping_mul(131).wrapping_add(c as u64));
        Gen { r: Rng::new(h), thorough: tier.starts_with("thorough"), again: tier.ends_with('+') }
    }
    fn n(&self, quick: u64) -> u64 {
        if self.thorough { quick * 12 } else { quick * 8 }
    }
    fn builtin(&mut self) -> &'static P {
        let i = match self.r.below(16) {
            0 | 1 => "f16",
            2 | 3 => "f32",
            4 | 5 | 6 => "f64",
            7 | 8 => "f128",
            9 => "bf16",
            10 => "e5m2",
            11 | 12 => "e4m3",
            _ => "x87",
        };
        ALL.iter().find(|p| p.name == i).unwrap()
    }
    fn custom(&mut self) -> &'static P {
        let i = *self.r.pick(&CUSTOM);
        ALL.iter().find(|p| p.name == i).unwrap()
    }
    fn rm(&mut self) -> u8 {
        self.r.below(5) as u8
    }
    fn ev(&mut self, op: Op, f: &P) -> Ev {
        let mut e = Ev::new(op, f.name);
        e.rm = self.rm();
        e
    }
    /// Sometimes use the operator forms.
    fn form(&mut self, e: &mut Ev, forms: u64) {
        if self.r.chance(1, 8) {
            e.form = (1 + self.r.below(forms)) as u8;
            e.rm = 0;
        }
    }

    // ---- operand pairs -------------------------------------------------------------------------------------
    pub fn add_pair(&mut self, f: &P) -> (u128, u128) {
        let r = &mut self.r;
        let p = f.p as i32;
        let a = num(r, f);
        let Some((s, m, e)) = f.dec(a) else { return (a, a) };
        let sb = f.sign_bit();
        let b = match r.below(12) {
            0 => any(r, f),
            1 | 2 => {
                // directed exponent distance between the leading bits
                let k = e + blen(m) as i32 - 1;
                let d = *r.pick(&[-1, 0, 1, 2, p - 2, p - 1, p, p + 1, p + 2, 2 * p, p / 2]);
                let d = if r.chance(1, 3) { -d } else { d };
                f.enc(r.below(2) as u32, sig(r, f.p), k - d - (p - 1))
            }
            3 => (a ^ sb).wrapping_add(r.range(-4, 4) as u128) & mask(f.bits),
            4 => {
                // near cancellation across a binade
                let sh = r.range(0, 2) as i32;
                let k = e + blen(m) as i32 - 1 - sh;
                f.enc(1 - s, sig(r, f.p), k - (p - 1))
            }
            5 | 6 => {
                // half a unit of a, or just beside it
                let w = r.below(f.p as u64) as u32 + 1;
                let t = match r.below(5) {
                    0 => 1 << (w - 1),
                    1 => 1 << (w - 1) | 1,
                    2 => mask(w),
                    3 => sig(r, w),
                    _ => 1 << (w - 1) | 1 << r.below(w as u64),
                };
                let off = *r.pick(&[0, 0, 0, -1, 1]);
                f.enc(r.below(2) as u32, t, e - w as i32 + off)
            }
            7 => {
                // around overflow
                let a2 = f.enc(s, f.maxm().wrapping_sub(r.below(3) as u128), f.emax - (p - 1));
                let w = r.below(f.p as u64) as u32 + 1;
                let b = f.enc(s, sig(r, w), f.emax - (p - 1) - w as i32 + r.range(-1, 2) as i32);
                return if r.chance(1, 2) { (a2, b) } else { (b, a2) };
            }
            8 => {
                let a2 = f.enc(s, sig(r, f.p), f.emax - (p - 1) - r.range(0, 1) as i32);
                return (a2, f.enc(s, sig(r, f.p), f.emax - (p - 1) - r.range(0, 1) as i32));
            }
            9 => {
                // around the subnormal boundary
                let a2 = f.enc(s, sig(r, f.p), f.emine() + r.range(0, 3) as i32);
                return (a2, f.enc(1 - s, sig(r, f.p), f.emine() + r.range(0, 3) as i32));
            }
            10 => special(r, f),
            _ => num(r, f),
        };
        if r.chance(1, 2) { (a, b) } else { (b, a) }
    }
    pub fn mul_pair(&mut self, f: &P) -> (u128, u128) {
        let r = &mut self.r;
        let p = f.p as i32;
        let (s, t) = (r.below(2) as u32, r.below(2) as u32);
        if r.chance(1, 16) {
            // a subnormal significand of any width times anything that brings it back into range
            let w = r.below(f.p as u64) as u32 + 1;
            let v = if r.chance(1, 2) { f.p } else { r.below(f.p as u64) as u32 + 1 };
            let a = f.enc(s, sig(r, w), f.emine());
            let k = if r.chance(1, 3) { exp(r, f) } else { r.range(0, f.emax as i64) as i32 };
            let m = if r.chance(1, 2) { mask(v) - r.below(4).min(mask(v) as u64 - 1) as u128 } else { sig(r, v) };
            let b = f.enc(t, m, k - (v as i32 - 1));
            return if r.chance(1, 2) { (a, b) } else { (b, a) };
        }
        let (ma, mb) = match r.below(8) {
            0 => (sig(r, f.p), sig(r, f.p)),
            1 | 2 => {
                // product of p+1 .. p+3 bits: exact ties and short tails
                let w = r.range(1, p as i64) as u32;
                let v = (f.p + r.range(0, 3) as u32).saturating_sub(w).clamp(1, f.p);
                (sig(r, w) | 1, sig(r, v) | 1)
            }
            3 | 4 | 5 => {
                // low bits of the product chosen: just above / below / at a tie, or tiny remainder
                let a = sig(r, f.p) | 1;
                let t = (f.p as i64 + r.range(-1, 0)) as u32;
                let want = match r.below(6) {
                    0 => 1 << (t - 1),
                    1 => 1 << (t - 1) | 1,
                    2 => (1 << (t - 1)) - 1,
                    3 => 1,
                    4 => mask(t),
                    _ => 1 << (t - 2),
                };
                let b = inv_mod(a).wrapping_mul(want) & mask(t);
                (a, b | 1 << (f.p - 1))
            }
            6 => {
                let w = r.range(1, p as i64) as u32;
                (sig(r, f.p), sig(r, w))
            }
            _ => (1, sig(r, f.p)),
        };
        // place the product
        let (la, lb) = (blen(ma) as i32, blen(mb) as i32);
        let target = match r.below(8) {
            0 | 1 => f.emin as i64 - r.range(-2, p as i64 + 3), // around and below the subnormal boundary
            2 => f.emin as i64 - p as i64 + r.range(-2, 2),
            3 | 4 => f.emax as i64 + r.range(-2, 2),
            5 => r.range(-3, 3),
            _ => r.range(f.emin as i64 - p as i64 - 2, f.emax as i64 + 2),
        } as i32;
        // leading exponents ka + kb ~ target
        let lo = (target - f.emax).max(f.emin);
        let hi = (target - f.emin).min(f.emax);
        let ka = if lo <= hi { r.range(lo as i64, hi as i64) as i32 } else if target < 0 { f.emin } else { f.emax };
        let kb = target - ka;
        let a = f.enc(s, ma, ka - (la - 1));
        let b = f.enc(t, mb, kb - (lb - 1));
        if r.chance(1, 24) {
            return (special(r, f), any(r, f));
        }
        if r.chance(1, 24) {
            return (any(r, f), special(r, f));
        }
        if r.chance(1, 2) { (a, b) } else { (b, a) }
    }
    pub fn div_pair(&mut self, f: &P) -> (u128, u128) {
        let r = &mut self.r;
        let p = f.p as i32;
        let (s, t) = (r.below(2) as u32, r.below(2) as u32);
        let (ma, mb) = match r.below(8) {
            0 => (sig(r, f.p), sig(r, f.p)),
            1 | 2 => {
                // exact quotients: a = q * b
                let w = r.range(1, p as i64) as u32;
                let b = sig(r, w) | 1;
                let q = sig(r, (f.p - w).max(1)) | 1;
                (b.wrapping_mul(q) & mask(f.p), b)
            }
            3 | 4 | 5 => {
                // quotient next to a representable value or a midpoint: a = q*b -/+ a little
                let b = sig(r, f.p);
                let qw = f.p + 1 - r.below(2) as u32;
                let q = sig(r, qw) | 1;
                let (h, l) = wide_mul(q, b);
                let (m, _) = top_bits(h, l, f.p);
                (m.wrapping_add(r.range(-1, 2) as u128) & mask(f.p), b)
            }
            6 => (sig(r, f.p), 1),
            _ => {
                let b = mask(f.p) - r.below(6) as u128;
                ((sig(r, f.p)), b)
            }
        };
        let (ma, mb) = (ma.max(1), mb.max(1));
        let (la, lb) = (blen(ma) as i32, blen(mb) as i32);
        let target = match r.below(8) {
            0 | 1 => f.emin as i64 - r.range(-2, p as i64 + 3),
            2 => f.emin as i64 - p as i64 + r.range(-2, 2),
            3 | 4 => f.emax as i64 + r.range(-2, 2),
            5 => r.range(-3, 3),
            _ => r.range(f.emin as i64 - p as i64 - 2, f.emax as i64 + 2),
        } as i32;
        // ka - kb ~ target
        let lo = (target + f.emin).max(f.emin);
        let hi = (target + f.emax).min(f.emax);
        let ka = if lo <= hi { r.range(lo as i64, hi as i64) as i32 } else if target < 0 { f.emin } else { f.emax };
        let kb = ka - target;
        if r.chance(1, 24) {
            return (special(r, f), any(r, f));
        }
        if r.chance(1, 24) {
            return (any(r, f), special(r, f));
        }
        if r.chance(1, 12) {
            return (num(r, f), num(r, f)); // includes subnormal operands
        }
        (f.enc(s, ma, ka - (la - 1)), f.enc(t, mb, kb - (lb - 1)))
    }
    pub fn fma_triple(&mut self, f: &P) -> (u128, u128, u128) {
        let (a, b) = self.mul_pair(f);
        let p = f.p as i32;
        let (da, db) = (f.dec(a), f.dec(b));
        let r = &mut self.r;
        let (Some((sa, ma, ea)), Some((sb, mb, eb))) = (da, db) else {
            return (a, b, any(r, f));
        };
        let s = sa ^ sb;
        let (h, l) = wide_mul(ma, mb);
        let (m, sh) = top_bits(h, l, f.p);
        let e = ea + eb + sh; // product ~ m * 2^e
        let k = e + blen(m) as i32 - 1; // leading exponent
        let sc = r.below(2) as u32;
        let c = match r.below(14) {
            0 | 1 => {
                // minus the rounded product (cancellation leaves the tail)
                let m2 = m.wrapping_add(r.range(-2, 2) as u128) & mask(f.p);
                f.enc(1 - s, m2.max(1), e)
            }
            2 => f.enc(1 - s, sig(r, f.p), k - r.range(-2, 2) as i32 - (p - 1)),
            3 | 4 | 5 => {
                // addend at a directed distance
                let d = *r.pick(&[
                    0, 1, 2, p - 1, p, p + 1, p + 2, 2 * p - 1, 2 * p, 2 * p + 1, 2 * p + 2, 3 * p, -1, -p + 1, -p, -p - 1,
                    -p - 2, -2 * p, -2 * p - 1, -2 * p - 2, -3 * p,
                ]);
                f.enc(sc, sig(r, f.p), k + d - (p - 1))
            }
            6 | 7 => {
                // product decides a tie of c: c with product near half its unit
                let off = r.range(-1, 1) as i32;
                f.enc(sc, sig(r, f.p), k + 1 + off)
            }
            8 | 9 => {
                // c is a tiny correction of a product that may itself be a tie
                let w = r.range(1, p as i64) as u32;
                f.enc(sc, sig(r, w), ea + eb - r.range(0, 4) as i32 - w as i32)
            }
            10 => (if sc == 1 { f.sign_bit() } else { 0 }) | f.enc(0, 1, f.emine()).wrapping_mul(r.below(4) as u128),
            11 => f.enc(sc, f.maxm() - r.below(3) as u128, f.emax - (p - 1)),
            12 => special(r, f),
            _ => any(r, f),
        };
        (a, b, c)
    }
    /// Operands whose product is exactly (or nearly) minus c: constructed short factors.
    fn fma_exact(&mut self, f: &P) -> (u128, u128, u128) {
        let r = &mut self.r;
        let w = r.range(1, f.p as i64 - 1) as u32;
        let (ma, mb) = (sig(r, w), sig(r, (f.p - w).max(1)));
        let (s, t) = (r.below(2) as u32, r.below(2) as u32);
        let k = r.range(f.emin as i64, f.emax as i64 - 2) as i32;
        let ea = r.range((k / 2 - 3) as i64, (k / 2 + 3) as i64) as i32;
        let a = f.enc(s, ma, ea - blen(ma) as i32 + 1);
        let b = f.enc(t, mb, k - ea - blen(mb) as i32 + 1);
        let c = match (f.dec(a), f.dec(b)) {
            (Some((sa, x, ex)), Some((sb, y, ey))) if blen(x) + blen(y) <= 128 => {
                let c = f.enc(1 ^ sa ^ sb, x * y, ex + ey);
                c.wrapping_add(r.range(-1, 1) as u128 * r.below(2) as u128) & mask(f.bits)
            }
            _ => any(r, f),
        };
        (a, b, c)
    }
    pub fn rem_pair(&mut self, f: &P) -> (u128, u128) {
        let r = &mut self.r;
        let p = f.p as i32;
        let y = num(r, f);
        let Some((_, m, e)) = f.dec(y) else { return (y, y) };
        let s = r.below(2) as u32;
        let k = e + blen(m) as i32 - 1;
        let x = match r.below(13) {
            0 | 1 => f.enc(s, sig(r, f.p), k + r.range(-2, 3) as i32 - (p - 1)),
            2 | 3 | 4 => {
                // exact multiples and half multiples of y, and their neighbours
                let w = (f.p as i64 - blen(m) as i64).max(0) as u32;
                let n = if w == 0 || r.chance(1, 2) { 1 + r.below(8) as u128 } else { sig(r, w) };
                let half = r.below(2) as i32;
                let (h, l) = wide_mul(m, n);
                let (q, sh) = top_bits(h, l, f.p);
                let v = f.enc(s, q, e + sh - half);
                if r.chance(1, 2) { v } else { v.wrapping_add(r.range(-2, 2) as u128) & mask(f.bits) }
            }
            5 => {
                // both top-heavy: doubling overflows
                let b2 = f.enc(r.below(2) as u32, sig(r, f.p), f.emax - r.range(0, 2) as i32 - (p - 1));
                return (f.enc(s, sig(r, f.p), f.emax - r.range(0, 2) as i32 - (p - 1)), b2);
            }
            6 => {
                // subnormal divisors
                let w = r.below(f.p as u64) as u32 + 1;
                let b2 = f.enc(r.below(2) as u32, sig(r, w), f.emine());
                let w = r.below(f.p as u64) as u32 + 1;
                return (f.enc(s, sig(r, w), f.emine() + r.range(0, 3) as i32), b2);
            }
            7 => f.enc(s, sig(r, f.p), k + r.range(0, 40) as i32 - (p - 1)),
            8 => f.enc(s, sig(r, f.p), k + r.range(0, 3 * p as i64) as i32 - (p - 1)),
            9 => special(r, f),
            10 => return (any(r, f), special(r, f)),
            11 if f.emax < 2000 || r.chance(1, 40) => {
                // the widest gaps, with quotients of nearly all ones: (2^n - 2) 2^j mod (2^n - 1)
                let w = r.range(2, f.p.min(30) as i64) as u32;
                let y = f.enc(r.below(2) as u32, mask(w), f.emine() + r.range(0, 2) as i32);
                let m = if r.chance(2, 3) { mask(w) - 1 } else { sig(r, f.p) };
                return (f.enc(s, m, f.emax - (blen(m) as i32 - 1) - r.range(0, 2) as i32), y);
            }
            _ => num(r, f),
        };
        (x, y)
    }
    fn pair(&mut self, op: Op, f: &P) -> (u128, u128) {
        match op {
            Op::Add | Op::Sub => self.add_pair(f),
            Op::Mul => self.mul_pair(f),
            Op::Div => self.div_pair(f),
            Op::Fmod | Op::Rem => self.rem_pair(f),
            _ => (any(&mut self.r, f), any(&mut self.r, f)),
        }
    }
    fn bin_ev(&mut self, op: Op, f: &P) -> Ev {
        let (a, b) = self.pair(op, f);
        let mut e = self.ev(op, f);
        e.a = a;
        e.b = b;
        match op {
            Op::Rem => e.rm = 0,
            Op::Fmod => {
                e.rm = 0;
                e.form = self.r.below(3) as u8;
            }
            _ => self.form(&mut e, 2),
        }
        e
    }
    /// A product among the subnormals (or near them) less its value on the subnormal grid: only lost bits are left.
    fn fma_sub(&mut self, f: &P) -> (u128, u128, u128) {
        let r = &mut self.r;
        let p = f.p as i32;
        let k = f.emine() + r.range(-2, p as i64 + 1) as i32; // leading exponent of the product
        let ea = exp(r, f).clamp(k - f.emax, k - f.emin + p).clamp(f.emin, f.emax);
        let (wa, wb) = if r.chance(1, 3) { (1 + r.below(f.p as u64) as u32, 1 + r.below(f.p as u64) as u32) } else { (f.p, f.p) };
        let a = f.enc(r.below(2) as u32, sig(r, wa), ea - wa as i32 + 1);
        let b = f.enc(r.below(2) as u32, sig(r, wb), k - ea - r.below(2) as i32 - wb as i32 + 1);
        let c = match (f.dec(a), f.dec(b)) {
            (Some((sa, x, ex)), Some((sb, y, ey))) => {
                let (h, l) = wide_mul(x, y);
                let (m, sh) = top_bits(h, l, f.p);
                let c = f.enc(1 ^ sa ^ sb, m, ex + ey + sh);
                let d = if r.chance(1, 3) { r.range(-1, 1) as u128 } else { 0 };
                c.wrapping_add(d) & mask(f.bits)
            }
            _ => f.enc(r.below(2) as u32, 1 + r.below(3) as u128, f.emine()),
        };
        (a, b, c)
    }
    fn fma_ev(&mut self, f: &P) -> Ev {
        let (a, b, c) = match self.r.below(20) {
            0..=3 => self.fma_exact(f),
            4 | 5 => self.fma_sub(f),
            _ => self.fma_triple(f),
        };
        let mut e = self.ev(Op::Fma, f);
        (e.a, e.b, e.c) = (a, b, c);
        self.form(&mut e, 1);
        e
    }
    /// All pairs of the small formats, as rows.
    fn rows(&mut self, ops: &[Op], fmts: &[&'static str], share: u64, sink: Sink) {
        if self.again {
            return;
        }
        for &of in ops {
            for &f in fmts {
                let p = fmt(f);
                let modes = if matches!(of, Op::Fmod | Op::Rem) { 1 } else { 5 };
                for rm in 0..modes {
                    for a in 0..(1u128 << p.bits) {
                        if p.bits == 8 && !self.thorough && !self.r.chance(share, 100) {
                            continue;
                        }
                        let mut e = Ev::new(Op::Row, p.name);
                        (e.of, e.rm, e.a, e.w) = (of, rm, a, p.bits as i32);
                        sink(e);
                    }
                }
            }
        }
    }
    fn rows1(&mut self, ops: &[Op], fmts: &[&'static str], sink: Sink) {
        if self.again {
            return;
        }
        for &of in ops {
            for &f in fmts {
                let p = fmt(f);
                for rm in 0..if of == Op::Rint { 5 } else { 1 } {
                    let mut e = Ev::new(Op::Row1, p.name);
                    (e.of, e.rm, e.w) = (of, rm, p.bits as i32);
                    sink(e);
                }
            }
        }
    }

    // ---- unary and conversions -----------------------------------------------------------------------------
    /// Values around integers: fraction patterns at every position.
    fn frac_val(&mut self, f: &P) -> u128 {
        let r = &mut self.r;
        let p = f.p as i32;
        let s = r.below(2) as u32;
        match r.below(8) {
            0 => any(r, f),
            1 => f.enc(s, sig(r, f.p), r.range(-3, 2) as i32 - (p - 1)),
            2 | 3 | 4 => {
                // i.5, i.5 +- a little, i.0 +- a little
                let k = r.range(0, p as i64) as u32; // integer bits
                let int = if k == 0 { 0 } else { sig(r, k) };
                let fb = f.p.saturating_sub(k);
                let fr = if fb == 0 {
                    0
                } else {
                    match r.below(6) {
                        0 => 1 << (fb - 1),
                        1 => (1 << (fb - 1)) + 1,
                        2 => (1u128 << (fb - 1)) - 1,
                        3 => 1,
                        4 => mask(fb),
                        _ => 0,
                    }
                };
                f.enc(s, int << fb | fr, -(fb as i32))
            }
            5 => {
                let k = r.range(-3, p as i64 + 2) as i32;
                f.enc(s, sig(r, f.p), k - (p - 1))
            }
            6 => f.enc(s, sig(r, f.p), p + r.range(-3, 2) as i32 - (p - 1)),
            _ => special(r, f),
        }
    }
    fn toint_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::ToInt, f);
        let r = &mut self.r;
        e.sg = r.chance(1, 2);
        e.w = match r.below(4) {
            0 => *r.pick(&[1, 2, 3, 5, 7, 8, 16, 32, 64, 127, 128]),
            1 => *r.pick(&[128, 127, 64, 1, 2]),
            _ => r.range(1, 128) as i32,
        };
        e.n = r.below(2) as i32;
        let p = f.p as i32;
        e.a = if r.chance(1, 2) {
            // around the bounds of the width
            let w = e.w - if e.sg { 1 } else { 0 } + r.range(-1, 1) as i32;
            let s = r.below(2) as u32;
            if f.p as i32 > w && w >= 0 && r.chance(2, 3) {
                let fb = (p - w - 1).max(0) as u32; // fraction bits below the units place
                let base: u128 = 1u128 << w;
                let q = if fb == 0 {
                    base.wrapping_add(r.range(-2, 2) as u128)
                } else {
                    (base << fb)
                        .wrapping_add((1u128 << (fb - 1)).wrapping_mul(r.range(-4, 4) as u128))
                        .wrapping_add(r.range(-1, 1) as u128)
                };
                f.enc(s, q & mask(f.p + 1), -(fb as i32))
            } else {
                let m = match r.below(4) {
                    0 => 1 << (f.p - 1),
                    1 => mask(f.p),
                    2 => 1 << (f.p - 1) | 1,
                    _ => sig(r, f.p),
                };
                f.enc(s, m, w + r.range(-1, 0) as i32 - (p - 1))
            }
        } else {
            self.frac_val(f)
        };
        if self.r.chance(1, 8) {
            e.form = 1;
            e.rm = 4;
        }
        e
    }
    fn fromint_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::FromInt, f);
        let r = &mut self.r;
        e.sg = r.chance(1, 2);
        let k = r.range(0, 128) as u32;
        let v = match r.below(8) {
            0 => mask(k),
            1 => mask(k).wrapping_add(1),
            2 => r.u128() & mask(k),
            3 | 4 | 5 if k > f.p => {
                // p leading bits then a tie, or just beside it
                let t = k - f.p;
                let head = sig(r, f.p) << t;
                let tail = match r.below(6) {
                    0 => 1 << (t - 1),
                    1 => (1u128 << (t - 1)) + 1,
                    2 => (1u128 << (t - 1)).wrapping_sub(1),
                    3 => 1,
                    4 => mask(t),
                    _ => 0,
                };
                head | (tail & mask(t))
            }
            6 => if k == 0 { 0 } else { sig(r, k) },
            _ => {
                // around the largest finite value, when it is an integer below 2^128
                if f.emax < 127 {
                    let base: u128 = f.maxm() << (f.emax - (f.p as i32 - 1)).max(0);
                    let ulp = 1u128 << (f.emax - (f.p as i32 - 1)).max(0);
                    base.wrapping_add(ulp / 2 * r.below(4) as u128).wrapping_add(r.range(-1, 1) as u128)
                } else {
                    !0 - r.below(3) as u128
                }
            }
        };
        e.a = v;
        if e.sg {
            if r.chance(1, 40) {
                e.a = 1 << 127;
                e.neg = true;
            } else {
                e.a &= mask(127);
                e.neg = r.chance(1, 2) && e.a != 0;
            }
        }
        self.form(&mut e, 1);
        e
    }
    fn conv_ev(&mut self, f: &P, g: &'static P) -> Ev {
        let mut e = self.ev(Op::Conv, f);
        e.g = g.name;
        let r = &mut self.r;
        e.n = r.below(2) as i32;
        let (fp, gp) = (f.p as i32, g.p as i32);
        e.a = match r.below(12) {
            0 => any(r, f),
            1 => nan(r, f),
            2 => special(r, f),
            3 | 4 | 5 | 6 => {
                // head of the target's precision then a tail pattern, leading exponent around the target's limits
                let k = match r.below(6) {
                    0 => g.emin + r.range(-3, 3) as i32,
                    1 => g.emin - r.range(0, gp as i64 + 3) as i32,
                    2 => g.emax + r.range(-1, 1) as i32,
                    3 => f.emin - r.range(0, fp as i64) as i32,
                    4 => r.range(-3, 3) as i32,
                    _ => r.range(g.emin as i64 - gp as i64, g.emax as i64 + 1) as i32,
                };
                let keep = (gp - (g.emin - k).max(0)).clamp(0, fp) as u32; // bits the target keeps
                let t = f.p - keep;
                let head = if keep == 0 { 0 } else { sig(r, keep) };
                let tail = if t == 0 {
                    0
                } else {
                    match r.below(7) {
                        0 => 1 << (t - 1),
                        1 => (1u128 << (t - 1)) | 1,
                        2 => (1u128 << (t - 1)).wrapping_sub(1),
                        3 => 1,
                        4 => mask(t),
                        5 => 0,
                        _ => r.u128() & mask(t),
                    }
                };
                f.enc(r.below(2) as u32, head << t | tail, k - (fp - 1))
            }
            7 => {
                // exactly representable in both
                let w = gp.min(fp) as u32;
                let k = r.range(f.emin.max(g.emin) as i64, f.emax.min(g.emax) as i64) as i32;
                f.enc(r.below(2) as u32, sig(r, w), k - (w as i32 - 1))
            }
            8 => {
                // source subnormals
                let w = r.below(f.p as u64) as u32 + 1;
                f.enc(r.below(2) as u32, sig(r, w), f.emine())
            }
            9 => {
                // the target's subnormals, exactly
                let w = r.below(g.p as u64) as u32 + 1;
                f.enc(r.below(2) as u32, sig(r, w), g.emine())
            }
            10 => {
                let top = g.emax - (gp - 1);
                let m = g.maxm() << 1 | 1;
                f.enc(r.below(2) as u32, m.wrapping_add(r.range(-2, 2) as u128), top - 1)
            }
            _ => num(r, f),
        };
        self.form(&mut e, 1);
        e
    }
    fn scale_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::Scale, f);
        let r = &mut self.r;
        e.a = match r.below(6) {
            0 => any(r, f),
            1 => {
                let w = r.below(f.p as u64) as u32 + 1;
                f.enc(r.below(2) as u32, sig(r, w), f.emine() + r.range(0, 2) as i32)
            }
            _ => num(r, f),
        };
        let p = f.p as i64;
        let k = f.dec(e.a).map_or(0, |(_, m, x)| x + blen(m) as i32 - 1) as i64;
        let t = match r.below(10) {
            0 => *r.pick(&[
                i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, 1 << 20, -(1 << 20), 40000, -40000, 0, 1, -1,
            ]),
            1 | 2 => f.emin as i64 - k + r.range(-p - 3, 2),
            3 => f.emin as i64 - p - k + r.range(-2, 2),
            4 | 5 => f.emax as i64 - k + r.range(-2, 2),
            6 => {
                let span = (f.emax - f.emin) as i64 + p;
                let d = span + r.range(-3, 3);
                if r.chance(1, 2) { d } else { -d }
            }
            7 => r.range(-20, 20),
            8 => r.range(f.emin as i64 - f.emax as i64 - p, f.emax as i64 - f.emin as i64 + p),
            _ => r.u64() as i32 as i64,
        };
        e.n = t.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
        self.form(&mut e, 1);
        e
    }
    fn unary_ev(&mut self, op: Op, f: &P) -> Ev {
        let mut e = self.ev(op, f);
        e.a = match op {
            Op::Rint => self.frac_val(f),
            Op::Inv => match self.r.below(3) {
                0 => any(&mut self.r, f),
                _ => {
                    let k = match self.r.below(4) {
                        0 => -f.emin + self.r.range(-2, 2) as i32,
                        1 => f.emax - self.r.range(0, 3) as i32,
                        2 => f.emin + self.r.range(-3, 3) as i32,
                        _ => self.r.range(f.emin as i64, f.emax as i64) as i32,
                    };
                    let s = self.r.below(2) as u32;
                    f.enc(s, 1, k)
                }
            },
            Op::Next | Op::Prev => {
                // around binade boundaries and the ends
                let v = any(&mut self.r, f);
                match self.r.below(4) {
                    0 => {
                        let k = exp(&mut self.r, f);
                        let s = self.r.below(2) as u32;
                        f.enc(s, 1, k).wrapping_add(self.r.range(-1, 1) as u128) & mask(f.bits)
                    }
                    1 => special(&mut self.r, f),
                    _ => v,
                }
            }
            Op::Frexp => {
                if self.r.chance(1, 4) {
                    self.form(&mut e, 1);
                }
                any(&mut self.r, f)
            }
            _ => any(&mut self.r, f),
        };
        e
    }
    fn cmp_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::Cmp, f);
        e.rm = 0;
        let r = &mut self.r;
        e.a = any(r, f);
        e.b = match r.below(8) {
            0 => e.a,
            1 => e.a ^ f.sign_bit(),
            2 | 3 => e.a.wrapping_add(r.range(-2, 2) as u128) & mask(f.bits),
            4 => (e.a ^ f.sign_bit()).wrapping_add(r.range(-1, 1) as u128) & mask(f.bits),
            5 => special(r, f),
            6 => {
                e.a = special(r, f);
                special(r, f)
            }
            _ => any(r, f),
        };
        e
    }
    fn nan_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::NaN, f);
        let r = &mut self.r;
        e.rm = 0;
        e.sg = r.chance(1, 2);
        e.hasp = r.chance(5, 6);
        e.a = match r.below(5) {
            0 => 0,
            1 => 1 << r.below(128),
            2 => mask(r.below(129) as u32),
            3 => r.u128(),
            _ => r.below(100) as u128,
        };
        if !e.hasp {
            e.a = 0;
        }
        e
    }
    fn show_ev(&mut self, f: &P) -> Ev {
        let mut e = self.ev(Op::Show, f);
        let r = &mut self.r;
        e.rm = 0;
        e.n = match r.below(6) {
            0 | 1 => -1,
            2 => r.range(0, 3) as i32,
            3 => r.range(1, f.p as i64 / 2 + 6) as i32,
            4 => r.range(1, 25) as i32,
            _ => r.range(0, 60) as i32,
        };
        e.w = match r.below(4) {
            0 => -1,
            1 => r.range(0, 3) as i32,
            _ => r.range(0, 30) as i32,
        };
        e.sg = r.chance(1, 2);
        let p = f.p as i32;
        e.a = match r.below(10) {
            0 => any(r, f),
            1 => special(r, f),
            2 | 3 => {
                // small decimal-looking values
                let m = match r.below(4) {
                    0 => r.below(1000) as u128,
                    1 => 10u128.pow(r.below(20) as u32),
                    2 => 10u128.pow(r.below(12) as u32 + 1) - 1,
                    _ => r.below(1_000_000) as u128,
                };
                f.enc(r.below(2) as u32, m, r.range(-12, 6) as i32)
            }
            4 => f.enc(r.below(2) as u32, sig(r, f.p), r.range(-40, 40) as i32 - (p - 1)),
            5 => {
                let w = r.below(f.p as u64) as u32 + 1;
                f.enc(r.below(2) as u32, sig(r, w), f.emine())
            }
            6 => {
                // powers of ten, nearest below
                let k = r.range(-8, 18);
                let (m, x) = if k >= 0 {
                    (10u128.pow(k as u32), 0)
                } else {
                    // 10^k ~ floor(2^90 / 10^-k) * 2^-90
                    ((1u128 << 90) / 10u128.pow(-k as u32), -90)
                };
                let v = f.enc(r.below(2) as u32, m, x);
                if r.chance(1, 2) { v } else { v.wrapping_add(r.range(-1, 1) as u128) & mask(f.bits) }
            }
            7 if f.p > 60 && f.emax > f.p as i32 => {
                // an odd significand that ends just at, before or beyond a limb when shifted up
                let limb = 64 * r.range(1, 5) as i32;
                f.enc(r.below(2) as u32, sig(r, f.p) | 1, (limb - p + r.range(-8, 8) as i32).clamp(0, f.emax - p))
            }
            _ if f.emax > 2000 && (f.emax > 40_000 || r.chance(9, 10)) => {
                f.enc(r.below(2) as u32, sig(r, f.p), r.range(-400, 400) as i32 - (p - 1))
            }
            _ => num(r, f),
        };
        if self.r.chance(1, 8) {
            self.wide_show(&mut e, f);
        }
        e
    }
    /// Precisions and widths next to the ones where the layout of this value changes, and far larger ones.
    fn wide_show(&mut self, e: &mut Ev, f: &P) {
        let r = &mut self.r;
        let (mut digits, mut k) = (20i64, 0i64);
        if let Some((_, m, x)) = f.dec(e.a) {
            if m > 0 && x.abs() < 2000 {
                let (d, z) = exact_decimal(m, x);
                let d = d.trim_end_matches('0').len();
                (digits, k) = (d as i64, z as i64);
                if x > 0 {
                    k += exact_decimal(m, x).0.len() as i64 - digits;
                }
            }
        }
        let msd = k + digits - 1;
        let far = |r: &mut Rng| if r.chance(1, 40) { *r.pick(&[65_535, 65_534, 20_000]) } else { r.range(60, 1200) };
        let n = match r.below(7) {
            0 | 1 => digits + r.range(-2, 2),
            2 => msd + 1 + r.range(-2, 2),
            3 => far(r),
            4 => -1,
            _ => e.n as i64,
        };
        let w = match r.below(6) {
            0 => k.abs() + r.range(-2, 2),
            1 => msd.abs() + r.range(-2, 2),
            2 => far(r),
            _ => e.w as i64,
        };
        e.n = n.max(-1) as i32;
        e.w = w.max(-1) as i32;
    }

    // ---- text ---------------------------------------------------------------------------------------------
    /// A number of digits: below `usual`, mostly; now and then hundreds, rarely thousands.
    fn many(&mut self, usual: u64) -> usize {
        (match self.r.below(12000) {
            0 => *self.r.pick(&[32_760, 33_000, 65_530, 66_000]),
            1..=12 => self.r.range(1000, 6000),
            13..=240 => self.r.range(100, 600),
            _ => self.r.below(usual) as i64,
        }) as usize
    }
    fn int_digits(&mut self, n: usize) -> String {
        (0..n).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }
    fn exp_text(&mut self, x: i64) -> String {
        let r = &mut self.r;
        let z = "0".repeat(match r.below(20_000) {
            0 => 70_000,
            1..=20 => 300,
            21..=180 => r.below(60) as usize,
            181..=4000 => r.below(4) as usize,
            _ => 0,
        });
        if x < 0 { format!("-{z}{}", -x) } else if r.chance(1, 3) { format!("+{z}{x}") } else { format!("{z}{x}") }
    }
    /// Lay out digits * 10^k: move the dot, add zeros, choose the marker.
    fn layout_dec(&mut self, digits: &str, k: i64) -> String {
        let mut d = digits.to_string();
        let mut k = k;
        if self.r.chance(1, 4) {
            let z = self.many(5) + 1;
            d.push_str(&"0".repeat(z));
            k -= z as i64;
        }
        let n = d.len() as i64;
        let shift = match self.r.below(6) {
            0 => 0,
            1 => n,
            2 => n - 1,
            3 => n + 1 + self.many(5) as i64,
            4 if k < 0 && k > -1500 => -k,
            _ => self.r.range(0, n),
        };
        let lead = if self.r.chance(1, 4) { "0".repeat(self.many(4) + 1) } else { String::new() };
        // dot placed `shift` digits from the right: value = d * 10^-shift * 10^(k+shift)
        let mut s = lead;
        if shift == 0 {
            s.push_str(&d);
            if self.r.chance(1, 4) {
                s.push('.');
            }
        } else if shift >= n {
            if self.r.chance(1, 2) {
                s.push('0');
            }
            s.push('.');
            s.push_str(&"0".repeat((shift - n) as usize));
            s.push_str(&d);
        } else {
            s.push_str(&d[..(n - shift) as usize]);
            s.push('.');
            s.push_str(&d[(n - shift) as usize..]);
        }
        let x = k + shift;
        if x != 0 || self.r.chance(1, 4) {
            s.push(if self.r.chance(1, 2) { 'e' } else { 'E' });
            let t = self.exp_text(x);
            s.push_str(&t);
            if x == 0 && self.r.chance(1, 4) {
                s.truncate(s.len() - t.len());
                if self.r.chance(1, 2) {
                    s.push('-');
                }
            }
        }
        s
    }
    fn sign_text(&mut self) -> &'static str {
        *self.r.pick(&["", "", "-", "-", "+"])
    }
    /// Decimal exponents to draw from: up to the ends of the range, except for the widest formats, mostly.
    fn dec_span(&mut self, f: &P) -> i64 {
        let lim = (f.emax as i64 - f.emin as i64) * 30103 / 200000 + 6;
        if f.emax > 40_000 && !self.r.chance(1, 60) { lim.min(1500) } else { lim }
    }
    fn dec_text(&mut self, f: &P) -> String {
        let p = f.p as i32;
        let (d, k): (String, i64) = match self.r.below(25) {
            0 => {
                // an integer whose first 127, 255, ... bits are ones: rounding it up carries all the way
                let ones = match self.r.below(5) {
                    0 => 255,
                    1 => 127 + self.r.below(3) as usize,
                    2 => 254 + self.r.below(4) as usize,
                    3 => 100 + self.r.below(300) as usize,
                    _ => 127,
                };
                let n = ones + self.r.below(if ones > 200 { 200 } else { 120 }) as usize;
                let words = n.div_ceil(32);
                let mut v: Vec<u32> = (0..words).map(|_| self.r.u128() as u32).collect();
                for i in 0..words * 32 {
                    let bit = 1u32 << (i % 32);
                    if i >= n {
                        v[i / 32] &= !bit;
                    } else if i + ones >= n {
                        v[i / 32] |= bit;
                    }
                }
                let d = Big(v).decimal();
                let lim = self.dec_span(f);
                let x = if self.r.chance(1, 2) { self.r.range(-20, 20) } else { self.r.range(-lim - p as i64 / 3, lim + 3) };
                let n = d.len() as i64;
                (d, if self.r.chance(1, 8) { 0 } else { x - n })
            }
            1..=4 => {
                // random digits and exponent within range
                let nmax = if self.r.chance(1, 6) { 120 } else { 20 };
                let n = 1 + self.r.below(nmax) as usize;
                let lim = self.dec_span(f);
                let x = self.r.range(-lim - p as i64 / 3, lim + 3);
                (self.int_digits(n), x - n as i64)
            }
            5 | 6 => {
                let n = 1 + self.r.below(18) as usize;
                (self.int_digits(n), self.r.range(-25, 25))
            }
            7 | 8 => {
                // decimal limits of the format
                let top = ((f.emax as i64 + 1) * 30103) / 100000;
                let bot = (f.emine() as i64 * 30103) / 100000;
                let n = 1 + self.r.below(6) as usize;
                let x = if self.r.chance(1, 2) { top } else { bot } + self.r.range(-3, 3);
                (self.int_digits(n), x - n as i64)
            }
            9 | 10 => {
                let n = 1 + self.r.below(4) as usize;
                let x = *self.r.pick(&[
                    100_000i64, -100_000, 2_147_483_647, -2_147_483_648, 2_147_483_648, 99_999_999_999, -99_999_999_999, 4950,
                    -4970, 5000, -5000, 51085, -51085,
                ]);
                (self.int_digits(n), x)
            }
            _ => {
                // a midpoint (or a value) and its immediate decimal surroundings
                let big = f.emax > 2000;
                let e = if big && (f.emax > 40_000 || self.r.chance(29, 30)) {
                    // keep expansions of the widest formats short, most of the time
                    self.r.range(-200, 200) as i32 - p
                } else {
                    match self.r.below(6) {
                        0 => f.emine() + self.r.range(0, 2) as i32,
                        1 => f.emax - (p - 1) - self.r.range(0, 1) as i32,
                        2 => self.r.range(-4, 4) as i32 - (p - 1),
                        _ => self.r.range(f.emine() as i64, (f.emax - (p - 1)) as i64) as i32,
                    }
                };
                let sub = e == f.emine() && self.r.chance(1, 2);
                let m = if sub {
                    let w = self.r.below(f.p as u64) as u32 + 1;
                    match self.r.below(3) {
                        0 => self.r.below(3) as u128,
                        _ => sig(&mut self.r, w),
                    }
                } else {
                    match self.r.below(6) {
                        0 => mask(f.p),
                        1 => f.maxm(),
                        _ => sig(&mut self.r, f.p),
                    }
                };
                let (m, e) = if self.r.chance(4, 5) { (m << 1 | 1, e - 1) } else { (m, e) };
                let (mut d, mut k) = exact_decimal(m.max(1), e);
                match self.r.below(6) {
                    0 | 1 => {}
                    2 => {
                        // a hair above, possibly far out
                        let z = if self.r.chance(1, 3) { self.r.below(400) } else { self.r.below(20) } as usize;
                        d.push_str(&"0".repeat(z));
                        d.push((b'1' + self.r.below(9) as u8) as char);
                        k -= z as i32 + 1;
                    }
                    3 => {
                        // a hair below: decrement the last digit then nines
                        let mut v = d.into_bytes();
                        let mut i = v.len();
                        while i > 0 {
                            i -= 1;
                            if v[i] == b'0' {
                                v[i] = b'9';
                            } else {
                                v[i] -= 1;
                                break;
                            }
                        }
                        d = String::from_utf8(v).unwrap();
                        let z = if self.r.chance(1, 3) { self.r.below(400) } else { self.r.below(20) } as usize;
                        d.push_str(&"9".repeat(z));
                        k -= z as i32;
                    }
                    4 => {
                        // truncated expansion
                        // (cut where the distance is about one unit of a 127- or 255-bit calculation, half the time)
                        let n = match self.r.below(4) {
                            0 => self.r.range(36, 42) as usize,
                            1 => self.r.range(74, 81) as usize,
                            _ => 1 + self.r.below(d.len() as u64) as usize,
                        }
                        .min(d.len());
                        k += (d.len() - n) as i32;
                        d.truncate(n);
                        if self.r.chance(1, 3) {
                            let mut v = d.into_bytes();
                            let l = v.len() - 1;
                            v[l] = if v[l] == b'9' { b'8' } else { v[l] + 1 };
                            d = String::from_utf8(v).unwrap();
                        }
                    }
                    _ => {
                        // change one digit somewhere
                        let i = self.r.below(d.len() as u64) as usize;
                        let mut v = d.into_bytes();
                        v[i] = b'0' + self.r.below(10) as u8;
                        d = String::from_utf8(v).unwrap();
                    }
                }
                (d, k as i64)
            }
        };
        let d = if self.r.chance(1, 60) { "0".repeat(d.len().min(5)) } else { d };
        let sgn = self.sign_text();
        format!("{sgn}{}", self.layout_dec(&d, k))
    }
    fn hex_text(&mut self, f: &P) -> String {
        let p = f.p as i32;
        // significand bits and their scale
        let (mut h, mut e): (String, i64) = match self.r.below(6) {
            0 => {
                let n = 1 + self.r.below(12) as usize;
                let s: String = (0..n).map(|_| char::from_digit(self.r.below(16) as u32, 16).unwrap()).collect();
                (s, self.r.range(f.emine() as i64 - 8, f.emax as i64 + 4) - 4 * n as i64)
            }
            _ => {
                let ulp = match self.r.below(6) {
                    0 => f.emine() as i64 + self.r.range(0, 1),
                    1 => (f.emax - (p - 1)) as i64,
                    2 => f.emine() as i64 - self.r.range(0, 3),
                    _ => self.r.range(f.emine() as i64, (f.emax - (p - 1)) as i64),
                };
                let m = match self.r.below(6) {
                    0 => mask(f.p),
                    1 => f.maxm(),
                    2 => {
                        let w = self.r.below(f.p as u64) as u32 + 1;
                        sig(&mut self.r, w)
                    }
                    _ => sig(&mut self.r, f.p),
                };
                // append tail bits: up to 7 exact bits after the significand
                let t = self.r.below(8) as u32;
                let tail = match self.r.below(4) {
                    0 if t > 0 => 1 << (t - 1),
                    1 => mask(t),
                    2 if t > 0 => mask(t - 1),
                    _ => self.r.u128() & mask(t),
                };
                (format!("{:x}", m << t | tail), ulp - t as i64)
            }
        };
        match self.r.below(6) {
            0 => {
                // sticky digits far out
                let zmax = if self.r.chance(1, 3) { 60 } else { 6 };
                let z = self.many(zmax);
                h.push_str(&"0".repeat(z));
                h.push(*self.r.pick(&['1', '7', '8', 'f', '4']));
                e -= 4 * (z as i64 + 1);
            }
            1 => {
                let z = self.many(40) + 1;
                h.push_str(&"0".repeat(z));
                e -= 4 * z as i64;
            }
            2 => {
                // fill up to 32 digits then 8 / 8..1 / 7f..
                while h.len() < 32 {
                    h.push('0');
                    e -= 4;
                }
                let tail = *self.r.pick(&["8", "80", "800001", "7ffff", "0", "00001", "9", "f", "81"]);
                h.push_str(tail);
                e -= 4 * tail.len() as i64;
            }
            _ => {}
        }
        if self.r.chance(1, 2) {
            h = h.to_uppercase();
        }
        if self.r.chance(1, 60) {
            h = "0".repeat(h.len());
        }
        let n = h.len() as i64;
        let shift = match self.r.below(5) {
            0 => 0,
            1 => n - 1,
            2 => n,
            3 => n + self.many(4) as i64,
            _ => self.r.range(0, n),
        };
        let lead = if self.r.chance(1, 4) { "0".repeat(self.many(40)) } else { String::new() };
        let mut s = lead;
        if shift == 0 {
            s.push_str(&h);
            if self.r.chance(1, 4) {
                s.push('.');
            }
        } else if shift >= n {
            s.push('.');
            s.push_str(&"0".repeat((shift - n) as usize));
            s.push_str(&h);
        } else {
            s.push_str(&h[..(n - shift) as usize]);
            s.push('.');
            s.push_str(&h[(n - shift) as usize..]);
        }
        let mut x = e + 4 * shift;
        if self.r.chance(1, 30) {
            x = *self.r.pick(&[
                2_147_483_647i64, -2_147_483_648, 2_147_483_648, 99_999_999_999, -99_999_999_999, 100_000, -100_000, 40000, -40000,
            ]);
        }
        let (sgn, mark) = (self.sign_text(), if self.r.chance(1, 2) { 'p' } else { 'P' });
        format!("{sgn}0{}{s}{mark}{}", if self.r.chance(1, 4) { 'X' } else { 'x' }, self.exp_text(x))
    }
    fn grammar_text(&mut self) -> String {
        if self.r.chance(1, 6) {
            return self.damaged_text();
        }
        let r = &mut self.r;
        const PIECES: [&str; 44] = [
            "", "", "+", "-", "0", "1", "9", "7", "8", ".", "e", "E", "p", "P", "0x", "0X", "x", "inf", "Inf", "INFINITY",
            "INF", "infinity", "nan", "NaN", "NAN", "s", "S", "snan", "sNaN", "(", ")", "()", "a", "F", "g", "_", " ", "é", "12",
            "0.5", "1e5", "00", "\u{661}", "i",
        ];
        match r.below(4) {
            0 => (0..r.below(6)).map(|_| *r.pick(&PIECES)).collect(),
            1 => {
                // NaN shaped
                let pay = match r.below(12) {
                    0 => String::new(),
                    1 if r.chance(1, 2) => format!("{}", r.u128() >> r.below(128)),
                    1 => format!("{}", r.u64()),
                    2 => format!("0x{:X}", r.u128() >> r.below(128)),
                    3 if r.chance(1, 2) => format!("0{:o}", r.u128() >> r.below(128)),
                    3 => format!("0{:o}", r.u64()),
                    4 => "340282366920938463463374607431768211455".into(),
                    5 => "340282366920938463463374607431768211456".into(),
                    6 => format!("0x{}", "f".repeat(r.range(30, 34) as usize)),
                    7 => format!("0{}", "7".repeat(r.range(41, 44) as usize)),
                    8 => (*r.pick(&["0", "00", "0x", "0X1", "08", "1a", "+5", "-5", "0x+f", "0+7", "+", "_1", "1_0"])).into(),
                    9 => format!("0x{}{:x}", "0".repeat(r.below(40) as usize), r.u64()),
                    10 => format!("{:039}", r.u64()),
                    _ => format!("{}", r.below(10)),
                };
                let (o, c) = *r.pick(&[("", ""), ("(", ")"), ("(", ""), ("", ")"), ("((", "))")]);
                let sg = *r.pick(&["", "-", "+"]);
                let s = *r.pick(&["", "s", "S", "q"]);
                let w = *r.pick(&["nan", "NaN", "Nan", "nan"]);
                format!("{sg}{s}{w}{o}{pay}{c}")
            }
            2 => {
                // a number with one edit
                let base = *r.pick(&[
                    "1.5e10", "-0x1.8p3", "+12.75", "0x.8p-1", "1e", "1e+", "0x1p", "0x1p+", "123456", ".5", "5.", "0x.p1", "0x1",
                    "-.e5", "0x1.0.0p1", "1.2.3", "1e5e5", "0x1p5p5", "1e1.5", "-inf", "+Inf", "0xnan",
                ]);
                let mut v: Vec<char> = base.chars().collect();
                let c = *r.pick(&['.', 'e', 'p', '+', '-', '0', '9', 'x', 'f', ' ', 'n', '_', 'E', 'P', 'ß']);
                let i = r.below(v.len() as u64 + 1) as usize;
                match r.below(3) {
                    0 => v.insert(i, c),
                    1 if i < v.len() => v[i] = c,
                    _ if i < v.len() => {
                        v.remove(i);
                    }
                    _ => {}
                }
                v.into_iter().collect()
            }
            _ => {
                let n = r.below(8);
                (0..n).map(|_| *r.pick(&['0', '1', '9', '.', 'e', 'E', 'p', 'P', '+', '-', 'x', 'X', 'a', 'F', 'n', 'N', 'i', 's', '(', ')'])).collect()
            }
        }
    }
    /// A well-formed number of any length with one or two characters changed.
    fn damaged_text(&mut self) -> String {
        let f = self.builtin();
        let s = if self.r.chance(1, 2) { self.dec_text(f) } else { self.hex_text(f) };
        let mut v: Vec<char> = s.chars().take(3000).collect();
        let r = &mut self.r;
        for _ in 0..1 + r.below(2) {
            let c = *r.pick(&[
                '.', 'e', 'E', 'p', 'P', '+', '-', '0', '5', 'x', 'X', 'f', 'F', 'g', 'G', '/', ':', '@', '`', ' ', '\t', '\n', '\0',
                '\u{7f}', '_', ',', '(', ')', 'n', 'i', 's', '\u{b2}', '\u{ff11}', '\u{661}', '\u{1d7d8}', '\u{a0}', '\u{2212}',
            ]);
            let n = v.len() as u64;
            // anywhere; or near either end, the dot or the exponent
            let i = match r.below(4) {
                0 => r.below(n + 1),
                1 => r.below(4.min(n + 1)),
                2 => n - r.below(6.min(n + 1)),
                _ => {
                    let at = v.iter().position(|c| ".eEpP".contains(*c)).unwrap_or(0) as i64;
                    (at + r.range(-2, 2)).clamp(0, n as i64) as u64
                }
            } as usize;
            match r.below(3) {
                0 => v.insert(i, c),
                1 if i < v.len() => v[i] = c,
                _ if i < v.len() => {
                    v.remove(i);
                }
                _ => {}
            }
        }
        v.into_iter().collect()
    }
    fn parse_ev(&mut self, f: &P, s: String) -> Ev {
        let mut e = self.ev(Op::Parse, f);
        e.s = s;
        self.form(&mut e, 1);
        e
    }

    // ---- properties ---------------------------------------------------------------------------------------
    pub fn property(&mut self, id: &str, sink: Sink) {
        match id {
            "C01" => self.c01(sink),
            "C02" | "C03" | "C04" => {
                let ops: &[Op] = match id {
                    "C02" => &[Op::Add, Op::Sub],
                    "C03" => &[Op::Mul],
                    _ => &[Op::Div],
                };
                self.rows(ops, &["e5m2", "e4m3"], 100, sink);
                for _ in 0..self.n(40000) {
                    let op = *self.r.pick(ops);
                    let f = self.builtin();
                    let e = self.bin_ev(op, f);
                    sink(e);
                }
            }
            "C05" => {
                for f in if self.again { &[][..] } else { &["u6", "n6"] } {
                    let p = fmt(f);
                    for i in 0..1u128 << 13 {
                        let mut e = self.ev(Op::Row, &p);
                        (e.of, e.w, e.a, e.c) = (Op::Fma, 6, i & 63, i >> 6 & 63);
                        sink(e);
                    }
                }
                for f in ["e5m2", "e4m3"] {
                    let p = fmt(f);
                    for _ in 0..self.n(250) {
                        let mut e = self.ev(Op::Row, &p);
                        (e.of, e.w) = (Op::Fma, 8);
                        e.a = self.r.u128() & 0xff;
                        e.c = self.r.u128() & 0xff;
                        sink(e);
                    }
                }
                for _ in 0..self.n(40000) {
                    let f = self.builtin();
                    let e = self.fma_ev(f);
                    sink(e);
                }
            }
            "C06" => self.c06(sink),
            "C22" => self.c22_single(sink),
            "C07" => {
                self.rows(&[Op::Fmod, Op::Rem], &["e5m2", "e4m3"], 100, sink);
                for _ in 0..self.n(25000) {
                    let f = self.builtin();
                    let op = *self.r.pick(&[Op::Fmod, Op::Rem]);
                    let e = self.bin_ev(op, f);
                    sink(e);
                }
            }
            "C08" => {
                self.rows1(&[Op::Rint], &["e5m2", "e4m3"], sink);
                for rm in 0..5 {
                    self.blocks16(Op::Rint, &mut |_, e| e.rm = rm, sink);
                }
                for _ in 0..self.n(50000) {
                    let f = self.builtin();
                    let mut e = self.unary_ev(Op::Rint, f);
                    if self.r.chance(1, 3) {
                        e.op = Op::Class;
                        e.rm = 0;
                    }
                    sink(e);
                }
            }
            "C09" => {
                self.rows1(&[Op::Next, Op::Prev], &["e5m2", "e4m3"], sink);
                for op in [Op::Next, Op::Prev] {
                    self.blocks16(op, &mut |_, _| {}, sink);
                }
                for _ in 0..self.n(40000) {
                    let f = self.builtin();
                    let op = *self.r.pick(&[Op::Next, Op::Prev]);
                    let mut e = self.unary_ev(op, f);
                    e.rm = 0;
                    sink(e);
                }
            }
            "C10" => {
                for f in ["e5m2", "e4m3"] {
                    let p = fmt(f);
                    for a in 0..256 {
                        for b in 0..256 {
                            if self.again && !self.r.chance(1, 5) {
                                continue;
                            }
                            let mut e = Ev::new(Op::Cmp, p.name);
                            (e.a, e.b) = (a, b);
                            sink(e);
                        }
                    }
                }
                for _ in 0..self.n(40000) {
                    let f = self.builtin();
                    let e = self.cmp_ev(f);
                    sink(e);
                }
            }
            "C11" => {
                for g in CONV_TARGETS {
                    self.blocks8(Op::Conv, &mut |s, e| (e.g, e.n) = (stat(g).name, s.r.below(2) as i32), sink);
                }
                for g in BUILTIN {
                    self.blocks16(Op::Conv, &mut |s, e| (e.g, e.rm, e.n) = (fmt(g).name, s.rm(), s.r.below(2) as i32), sink);
                }
                for f in ["e5m2", "e4m3"] {
                    let p = fmt(f);
                    for a in 0..256 {
                        for g in BUILTIN {
                            let mut e = self.ev(Op::Conv, &p);
                            e.g = fmt(g).name;
                            e.a = a;
                            sink(e);
                        }
                    }
                }
                for _ in 0..self.n(60000) {
                    let (f, g) = (self.builtin(), self.builtin());
                    let e = self.conv_ev(f, g);
                    sink(e);
                }
                // declared formats; one pair has a target whose least exponent lies among the source's subnormals
                for _ in 0..self.n(9000) {
                    let (f, g) = match self.r.below(4) {
                        0 => (stat("u54"), stat("u14")),
                        1 => (self.builtin(), stat(*self.r.pick(&CONV_TARGETS))),
                        _ => (self.custom(), stat(*self.r.pick(&CONV_TARGETS))),
                    };
                    let e = self.conv_ev(f, g);
                    sink(e);
                }
            }
            "C12" => {
                for w in (1..=20).chain([24, 31, 32, 33, 48, 63, 64, 65, 96, 126, 127, 128]) {
                    for sg in [false, true] {
                        self.blocks8(Op::ToInt, &mut |s, e| (e.sg, e.n, e.c) = (sg, s.r.below(2) as i32, w), sink);
                    }
                }
                for w in [8, 16, 32, 64, 128, 0] {
                    self.blocks16(
                        Op::ToInt,
                        &mut |s, e| {
                            (e.rm, e.sg, e.n) = (s.rm(), s.r.chance(1, 2), s.r.below(2) as i32);
                            e.c = if w > 0 { w } else { s.r.range(1, 128) as u128 };
                        },
                        sink,
                    );
                }
                for _ in 0..self.n(60000) {
                    let f = self.builtin();
                    let e = self.toint_ev(f);
                    sink(e);
                }
            }
            "C13" => {
                for _ in 0..self.n(60000) {
                    let f = self.builtin();
                    let e = self.fromint_ev(f);
                    sink(e);
                }
            }
            "C14" => {
                for _ in 0..self.n(12000) {
                    let f = self.builtin();
                    let s = self.dec_text(f);
                    let e = self.parse_ev(f, s);
                    sink(e);
                }
            }
            "C15" => {
                for _ in 0..self.n(30000) {
                    let f = self.builtin();
                    let s = self.hex_text(f);
                    let e = self.parse_ev(f, s);
                    sink(e);
                }
            }
            "C16" => self.c16(sink),
            "C17" => {
                self.show_small(sink);
                for _ in 0..self.n(12000) {
                    let e = if self.r.chance(1, 12) {
                        self.dd_ev(Op::Show)
                    } else {
                        let f = self.builtin();
                        self.show_ev(f)
                    };
                    sink(e);
                }
            }
            "C18" => {
                for n in -45..=45 {
                    self.blocks8(Op::Scale, &mut |_, e| e.n = n, sink);
                }
                self.blocks8(Op::Frexp, &mut |_, _| {}, sink);
                self.blocks16(Op::ILogB, &mut |_, _| {}, sink);
                self.blocks16(Op::Frexp, &mut |s, e| e.rm = s.rm(), sink);
                for lim in [3, 12, 40, 300] {
                    self.blocks16(Op::Scale, &mut |s, e| (e.rm, e.n) = (s.rm(), s.r.range(-lim, lim) as i32), sink);
                }
                for f in ["e5m2", "e4m3"] {
                    for a in 0..256 {
                        for op in [Op::ILogB, Op::Frexp] {
                            let mut e = self.ev(op, &fmt(f));
                            e.a = a;
                            sink(e);
                        }
                    }
                }
                for _ in 0..self.n(40000) {
                    let f = self.builtin();
                    let e = match self.r.below(5) {
                        0 => self.unary_ev(Op::ILogB, f),
                        1 => self.unary_ev(Op::Frexp, f),
                        _ => self.scale_ev(f),
                    };
                    sink(e);
                }
            }
            "C19" => self.c19(sink),
            "C20" => {
                for _ in 0..self.n(40000) {
                    let op = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Mul]);
                    let e = self.dd_ev(op);
                    sink(e);
                }
                for a in 0..1u128 << 14 {
                    for op in [Op::Add, Op::Sub, Op::Mul, Op::Mul] {
                        let mut e = self.dd_ev_of("dd7", op);
                        e.a = a;
                        sink(e);
                    }
                }
            }
            "C21" => {
                let ops = [
                    Op::Div, Op::Div, Op::Fma, Op::Fma, Op::Rem, Op::Fmod, Op::Rint, Op::Next, Op::Prev, Op::Cmp, Op::Class,
                    Op::ToInt, Op::FromInt, Op::Parse, Op::Show, Op::Scale, Op::ILogB, Op::Frexp, Op::Inv, Op::Neg, Op::Abs,
                    Op::CopySign, Op::NaN,
                ];
                for f in DOUBLES {
                    sink(Ev::new(Op::Const, f));
                }
                for _ in 0..self.n(40000) {
                    let op = *self.r.pick(&ops);
                    let e = self.dd_ev(op);
                    sink(e);
                }
                // every pair of the smallest double format (a share of them in the quick tier)
                for a in 0..1u128 << 14 {
                    for op in [
                        Op::Rint, Op::Next, Op::Prev, Op::Class, Op::ToInt, Op::Show, Op::ILogB, Op::Frexp, Op::Inv, Op::Div, Op::Fma,
                        Op::Rem, Op::Fmod, Op::Cmp, Op::Scale,
                    ] {
                        if self.thorough || self.r.chance(1, 6) {
                            let mut e = self.dd_ev_of("dd7", op);
                            e.a = a;
                            sink(e);
                        }
                    }
                }
            }
            "C23" => self.c23(sink),
            "C24" => self.c24(sink),
            _ => panic!("property {id}"),
        }
    }
    /// Every pattern of the 16-bit formats, in blocks; `set` completes a block's event.
    fn blocks16(&mut self, of: Op, set: &mut dyn FnMut(&mut Gen, &mut Ev), sink: Sink) {
        for f in ["f16", "bf16"] {
            for k in 0..256u128 {
                if self.again && !self.r.chance(1, 5) {
                    continue;
                }
                let mut e = Ev::new(Op::Row1, fmt(f).name);
                (e.of, e.w, e.a) = (of, 8, k << 8);
                set(self, &mut e);
                sink(e);
            }
        }
    }
    /// The same for all patterns of the built-in 8-bit formats, in every rounding direction.
    fn blocks8(&mut self, of: Op, set: &mut dyn FnMut(&mut Gen, &mut Ev), sink: Sink) {
        for f in ["e5m2", "e4m3"] {
            for rm in 0..5 {
                let mut e = Ev::new(Op::Row1, fmt(f).name);
                (e.of, e.w, e.rm) = (of, 8, rm);
                set(self, &mut e);
                sink(e);
            }
        }
    }
    /// Every pattern of the 16-bit formats, one event each.
    fn exhaust16(&mut self, op: Op, sink: Sink) {
        for f in ["f16", "bf16"] {
            for a in 0..65536u128 {
                if self.again && !self.r.chance(1, 5) {
                    continue;
                }
                let mut e = Ev::new(op, fmt(f).name);
                e.a = a;
                sink(e);
            }
        }
    }
    fn c01(&mut self, sink: Sink) {
        for f in ["e5m2", "e4m3"] {
            for a in 0..256 {
                let mut e = Ev::new(Op::Class, fmt(f).name);
                e.a = a;
                sink(e);
                for _ in 0..4 {
                    let mut e = Ev::new(Op::CopySign, fmt(f).name);
                    (e.a, e.b) = (a, self.r.u128() & 0xff);
                    sink(e);
                }
            }
        }
        self.exhaust16(Op::Class, sink);
        for _ in 0..self.n(3000) {
            let op = *self.r.pick(&[Op::Class, Op::Class, Op::Class, Op::Neg, Op::Abs, Op::CopySign]);
            let e = self.dd_ev(op);
            sink(e);
        }
        for _ in 0..self.n(40000) {
            let f = if self.r.chance(1, 3) { fmt("x87") } else { *self.builtin() };
            let f = &f;
            let mut e = Ev::new(Op::Class, f.name);
            let r = &mut self.r;
            e.a = match r.below(6) {
                0 => special(r, f),
                1 => nan(r, f),
                2 => r.u128() & mask(f.bits),
                // exponent field and fraction chosen separately
                3 => {
                    let ef = match r.below(4) {
                        0 => 0,
                        1 => mask(f.eb),
                        2 => mask(f.eb) - 1,
                        _ => r.u128() & mask(f.eb),
                    };
                    let t = match r.below(5) {
                        0 => 0,
                        1 => mask(f.tw()),
                        2 => 1 << r.below(f.tw() as u64),
                        3 => mask(r.below(f.tw() as u64 + 1) as u32),
                        _ => r.u128() & mask(f.tw()),
                    };
                    r.below(2) as u128 * f.sign_bit() | ef << f.tw() | t
                }
                4 => self.frac_val(f),
                _ => num(r, f),
            };
            let r = &mut self.r;
            if r.chance(1, 5) {
                e.op = Op::CopySign;
                e.b = any(r, f);
            }
            sink(e);
        }
    }
    fn c06(&mut self, sink: Sink) {
        let all = [
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Fmod, Op::Rem, Op::Fma, Op::Rint, Op::Next, Op::Prev, Op::Scale, Op::Conv,
            Op::Frexp, Op::Cmp, Op::ToInt,
        ];
        for _ in 0..self.n(60000) {
            let f = if self.r.chance(1, 4) { fmt("x87") } else { *self.builtin() };
            let op = *self.r.pick(&all);
            let mut e = self.ev(op, &f);
            let r = &mut self.r;
            (e.a, e.b, e.c) = (spec_any(r, &f), spec_any(r, &f), spec_any(r, &f));
            if r.chance(1, 3) {
                e.b = any(r, &f);
            }
            if r.chance(1, 3) {
                e.c = any(r, &f);
            }
            match op {
                Op::Conv => {
                    e.g = self.builtin().name;
                    self.form(&mut e, 1);
                }
                Op::Scale => e.n = r.range(-20, 20) as i32,
                Op::ToInt => {
                    e.w = r.range(1, 128) as i32;
                    e.sg = r.chance(1, 2);
                }
                Op::Fmod => {
                    e.rm = 0;
                    e.form = self.r.below(3) as u8;
                }
                Op::Rem | Op::Next | Op::Prev | Op::Cmp => e.rm = 0,
                Op::Add | Op::Sub | Op::Mul | Op::Div => self.form(&mut e, 2),
                Op::Fma | Op::Frexp => self.form(&mut e, 1),
                _ => {}
            }
            sink(e);
        }
    }
    fn c16(&mut self, sink: Sink) {
        // every string of length <= 3 (4) over a small alphabet
        let alpha: Vec<char> = "01.eEp+-xXanNs(f8".chars().collect();
        let maxlen = if self.again { 0 } else if self.thorough { 4 } else { 3 };
        let mut cur: Vec<String> = vec![String::new()];
        for len in 0..=maxlen {
            for s in &cur {
                let mut e = Ev::new(Op::Parse, "f64");
                e.s = s.clone();
                sink(e);
            }
            if len < maxlen {
                cur = cur.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
            }
        }
        for _ in 0..self.n(30000) {
            let f = self.builtin();
            let s = self.grammar_text();
            let e = self.parse_ev(f, s);
            sink(e);
        }
        for _ in 0..self.n(1500) {
            let s = self.grammar_text();
            let f = fmt(self.dd_name());
            let e = self.parse_ev(&f, s);
            sink(e);
        }
    }
    fn show_small(&mut self, sink: Sink) {
        for f in ["f16", "bf16"] {
            for a in 0..65536u128 {
                if self.thorough || self.r.chance(1, 4) {
                    let mut e = self.show_ev(&fmt(f));
                    e.a = a;
                    if self.r.chance(1, 2) {
                        (e.n, e.w) = (-1, -1);
                    }
                    sink(e);
                }
            }
        }
        for f in ["e5m2", "e4m3"] {
            for a in 0..256 {
                for _ in 0..6 {
                    let mut e = self.show_ev(&fmt(f));
                    e.a = a;
                    sink(e);
                }
                let mut e = Ev::new(Op::Show, fmt(f).name);
                (e.a, e.n, e.w) = (a, -1, -1);
                sink(e);
            }
        }
    }
    fn c19(&mut self, sink: Sink) {
        self.blocks16(Op::Inv, &mut |_, _| {}, sink);
        for f in DOUBLES {
            sink(Ev::new(Op::Const, f));
        }
        for _ in 0..self.n(3000) {
            let op = *self.r.pick(&[Op::NaN, Op::Inv, Op::Class]);
            let e = self.dd_ev(op);
            sink(e);
        }
        for f in BUILTIN.iter().chain(CUSTOM.iter()) {
            sink(Ev::new(Op::Const, fmt(f).name));
            let p = fmt(f);
            if p.emax < 200 {
                for k in p.emine()..=p.emax {
                    for s in 0..2 {
                        for d in [0i64, 1, -1] {
                            let mut e = Ev::new(Op::Inv, p.name);
                            e.a = p.enc(s, 1, k).wrapping_add(d as u128) & mask(p.bits);
                            sink(e);
                        }
                    }
                }
            }
        }
        for _ in 0..self.n(30000) {
            let f = self.builtin();
            let e = match self.r.below(4) {
                0 => self.unary_ev(Op::Inv, f),
                1 | 2 => self.nan_ev(f),
                _ => {
                    let mut e = Ev::new(Op::Class, f.name);
                    e.a = special(&mut self.r, f).wrapping_add(self.r.range(-1, 1) as u128) & mask(f.bits);
                    e
                }
            };
            let mut e = e;
            e.rm = 0;
            sink(e);
        }
    }
    /// One of the double formats, with its base format.
    fn dd_name(&mut self) -> &'static str {
        if self.r.chance(3, 5) { "dd" } else { *self.r.pick(&["dds", "ddb", "dd8", "dd7"]) }
    }
    pub fn dd_ev(&mut self, op: Op) -> Ev {
        let name = self.dd_name();
        self.dd_ev_of(name, op)
    }
    pub fn dd_ev_of(&mut self, name: &'static str, op: Op) -> Ev {
        let ddp = fmt(name);
        let d = dd_base(name);
        let (p, q, nb) = (d.p, d.p as i32 - 1, d.bits);
        let span = (d.emax - 2).min(60) as i64;
        let mut e = self.ev(op, &ddp);
        let r = &mut self.r;
        e.a = dd(r, &d);
        e.b = dd(r, &d);
        e.c = dd(r, &d);
        match op {
            Op::Add | Op::Sub | Op::Mul | Op::Div => {
                match r.below(12) {
                    0 if op != Op::Mul && op != Op::Div => {
                        // high parts whose sum is at the overflow threshold; the low parts decide
                        let s = r.below(2) as u32;
                        let et = d.emax - q;
                        let x = sig(r, p).min(mask(p));
                        let y = (mask(p) + 1 - x).wrapping_add(r.range(-1, 2) as u128) & mask(p);
                        let low = |r: &mut Rng| {
                            let t = if r.chance(3, 4) { 1 - s } else { s };
                            let gap = if r.chance(1, 2) { 0 } else { r.range(0, 2 * p as i64) as i32 };
                            let w = 1 + r.below(p as u64) as u32;
                            if r.chance(1, 8) { 0 } else { d.enc(t, sig(r, w), et - 1 - gap - w as i32) }
                        };
                        let (l, m) = (low(r), low(r));
                        e.a = d.enc(s, x, et) | l << nb;
                        e.b = d.enc(if op == Op::Sub { 1 - s } else { s }, y.max(1), et) | m << nb;
                        if r.chance(1, 2) {
                            (e.a, e.b) = if op == Op::Sub {
                                (e.b ^ (1 << (nb - 1) | 1 << (2 * nb - 1)), e.a ^ (1 << (nb - 1) | 1 << (2 * nb - 1)))
                            } else {
                                (e.b, e.a)
                            };
                        }
                    }
                    1 | 6 => {
                        // related high parts: cancellation, equal exponents
                        let hi = (e.a & mask(nb)).wrapping_add(r.range(-2, 2) as u128) & mask(nb);
                        e.b = hi | e.b & !mask(nb);
                        if r.chance(1, 2) {
                            e.b ^= 1 << (nb - 1);
                        }
                    }
                    2 | 3 => {
                        // close to the top
                        let mk = |r: &mut Rng| {
                            let hi = d.enc(r.below(2) as u32, sig(r, p), d.emax - q - r.range(0, 1) as i32);
                            let lo = d.enc(r.below(2) as u32, sig(r, p), d.emax - q - q - 2 - r.range(0, 60) as i32);
                            hi | lo << nb
                        };
                        (e.a, e.b) = (mk(r), mk(r));
                    }
                    4 | 5 => {
                        e.a = d.enc(r.below(2) as u32, sig(r, p), r.range(-span, span) as i32) | e.a & !mask(nb);
                        e.b = d.enc(r.below(2) as u32, sig(r, p), r.range(-span, span) as i32) | e.b & !mask(nb);
                    }
                    _ => {}
                }
                self.form(&mut e, 2);
            }
            Op::Fmod => {
                e.rm = 0;
                e.form = self.r.below(3) as u8;
            }
            Op::Rem | Op::Next | Op::Prev => e.rm = 0,
            Op::Cmp => {
                e.rm = 0;
                if r.chance(1, 2) {
                    e.b = match r.below(4) {
                        0 => e.a,
                        1 => e.a ^ 1 << (nb - 1),
                        2 => e.a ^ 1 << (2 * nb - 1),
                        _ => (e.a & mask(nb)) | (e.b & !mask(nb)),
                    };
                }
            }
            Op::Fma => {
                if r.chance(1, 2) {
                    // moderate exponents so that the addend matters
                    let mk = |r: &mut Rng| {
                        let hi = d.enc(r.below(2) as u32, sig(r, p), r.range(-20, 20).clamp(-span, span) as i32 - q);
                        let lo = d.enc(r.below(2) as u32, sig(r, p), r.range(-20, 0) as i32 - 2 * q - 8);
                        hi | lo << nb
                    };
                    (e.a, e.b, e.c) = (mk(r), mk(r), mk(r));
                }
                self.form(&mut e, 1);
            }
            Op::ToInt | Op::Rint | Op::Class => {
                if r.chance(3, 4) {
                    // parts around the units place
                    let k = r.range(-2, (2 * p as i64 + 4).min(d.emax as i64)) as i32;
                    let hi = d.enc(r.below(2) as u32, sig(r, p), k - q);
                    let w = r.range(1, p as i64) as u32;
                    let lo = d.enc(r.below(2) as u32, sig(r, w), k - q - 2 - w as i32 - r.below(8) as i32 * r.below(8) as i32);
                    e.a = hi | lo << nb;
                }
                if op == Op::ToInt {
                    e.sg = r.chance(1, 2);
                    e.w = r.range(1, 128) as i32;
                    e.n = r.below(2) as i32;
                    if r.chance(1, 8) {
                        (e.form, e.rm) = (1, 4);
                    }
                } else if op == Op::Class {
                    e.rm = 0;
                    if r.chance(1, 3) {
                        // the named values of either sign, and what is next to them
                        let (hi, lo) = match r.below(5) {
                            0 | 1 => (d.enc(0, d.maxm(), d.emax - q), d.enc(0, d.maxm() - 1, d.emax - q - p as i32 - 1)),
                            2 => (d.enc(0, 1, d.emine()), 0),
                            3 => (d.enc(0, 1, d.emin + p as i32), 0),
                            _ => (special(r, &d), if r.chance(1, 2) { 0 } else { any(r, &d) }),
                        };
                        let near = |r: &mut Rng, x: u128| {
                            if r.chance(2, 3) { x } else { x.wrapping_add(r.range(-1, 1) as u128) & mask(nb) }
                        };
                        let (mut hi, mut lo) = (near(r, hi), near(r, lo));
                        if r.chance(1, 2) {
                            hi ^= 1 << (nb - 1);
                            if lo & mask(nb - 1) != 0 || r.chance(1, 3) {
                                lo ^= 1 << (nb - 1);
                            }
                        } else if r.chance(1, 8) {
                            lo ^= 1 << (nb - 1);
                        }
                        e.a = hi | lo << nb;
                    }
                }
            }
            Op::FromInt => {
                let mut fb = params(name, d.bits, d.eb, Kind::DD);
                fb.p = 2 * p;
                return self.fromint_ev(&fb);
            }
            Op::Parse => {
                // text near values and midpoints of the 106-bit format
                let fb = P { name, bits: 127, eb: d.eb, p: 2 * p, emin: d.emin + p as i32, emax: d.emax, kind: Kind::DD };
                let s = match self.r.below(8) {
                    0 => self.grammar_text(),
                    1 | 2 => self.hex_text(&fb),
                    _ => self.dec_text(&fb),
                };
                return self.parse_ev(&ddp, s);
            }
            Op::Show => {
                let mut s = self.show_ev(&d);
                s.f = name;
                s.a = if self.r.chance(1, 4) { dd(&mut self.r, &d) } else {
                    let r = &mut self.r;
                    let k = r.range(-span, span) as i32;
                    d.enc(r.below(2) as u32, sig(r, p), k - q) | d.enc(r.below(2) as u32, sig(r, p), k - 2 * q - 2 - r.below(20) as i32) << nb
                };
                return s;
            }
            Op::Scale => {
                e.n = match r.below(4) {
                    0 => r.range(-2200, 2200) as i32,
                    1 => *r.pick(&[i32::MIN, i32::MAX, 0, 1, -1]),
                    _ => r.range(-80, 80) as i32,
                };
                self.form(&mut e, 1);
            }
            Op::Frexp => self.form(&mut e, 1),
            Op::Inv => {
                if r.chance(2, 3) {
                    let k = match r.below(3) {
                        0 => d.emax - 1 + r.range(-60, 1) as i32,
                        1 => d.emine() + r.range(0, 3 * p as i64) as i32,
                        _ => r.range(d.emine() as i64, d.emax as i64) as i32,
                    };
                    e.a = d.enc(r.below(2) as u32, 1, k) | if r.chance(1, 4) { e.a & !mask(nb) } else { 0 };
                }
                e.rm = 0;
            }
            Op::NaN => {
                let mut n = self.nan_ev(&d);
                n.f = name;
                return n;
            }
            Op::Neg | Op::Abs | Op::CopySign | Op::ILogB => e.rm = 0,
            _ => {}
        }
        e
    }
    fn any_op(&mut self, f: &'static P, conv_to: bool) -> Ev {
        let ops = [
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Fmod, Op::Rem, Op::Fma, Op::Rint, Op::Next, Op::Prev, Op::Cmp, Op::Class,
            Op::Conv, Op::ToInt, Op::FromInt, Op::Parse, Op::Show, Op::Scale, Op::ILogB, Op::Frexp, Op::Inv, Op::NaN, Op::Parse,
            Op::Conv, Op::Fma, Op::Show,
        ];
        let op = *self.r.pick(&ops);
        match op {
            _ if BIN.contains(&op) => self.bin_ev(op, f),
            Op::Fma => self.fma_ev(f),
            Op::Rint | Op::Next | Op::Prev | Op::ILogB | Op::Frexp | Op::Inv | Op::Class => {
                let mut e = self.unary_ev(op, f);
                if !matches!(op, Op::Rint | Op::Frexp) {
                    e.rm = 0;
                }
                e
            }
            Op::Cmp => self.cmp_ev(f),
            Op::Conv => {
                if conv_to && self.r.chance(1, 2) {
                    // the other way round: a built-in source
                    let g = f;
                    if CONV_TARGETS.contains(&g.name) {
                        let src = self.builtin();
                        return self.conv_ev(src, g);
                    }
                }
                let gn = *self.r.pick(&CONV_TARGETS);
                let g = ALL.iter().find(|p| p.name == gn).unwrap();
                self.conv_ev(f, g)
            }
            Op::ToInt => self.toint_ev(f),
            Op::FromInt => self.fromint_ev(f),
            Op::Parse => {
                let s = match self.r.below(8) {
                    0 => self.grammar_text(),
                    1 | 2 | 3 => self.hex_text(f),
                    _ => self.dec_text(f),
                };
                self.parse_ev(f, s)
            }
            Op::Show => self.show_ev(f),
            Op::Scale => self.scale_ev(f),
            Op::NaN => self.nan_ev(f),
            _ => unreachable!(),
        }
    }
    fn c23(&mut self, sink: Sink) {
        for _ in 0..self.n(36000) {
            let f = self.builtin();
            let e = self.any_op(f, false);
            sink(e);
        }
        // raw patterns through everything, double-double included
        for _ in 0..self.n(12000) {
            let f = self.builtin();
            let mut e = self.any_op(f, false);
            let m = mask(f.bits);
            if !matches!(e.op, Op::FromInt | Op::NaN) {
                e.a = self.r.u128() & m;
            }
            e.b = self.r.u128() & m;
            e.c = self.r.u128() & m;
            sink(e);
        }
        let ops = [
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Fma, Op::Rem, Op::Fmod, Op::Rint, Op::Next, Op::Prev, Op::Cmp, Op::Class, Op::ToInt,
            Op::FromInt, Op::Parse, Op::Show, Op::Scale, Op::ILogB, Op::Frexp, Op::Inv,
        ];
        for _ in 0..self.n(10000) {
            let op = *self.r.pick(&ops);
            let mut e = self.dd_ev(op);
            if self.r.chance(1, 3) && e.op != Op::FromInt {
                e.a = self.r.u128();
                e.b = self.r.u128();
            }
            sink(e);
        }
    }
    fn c24(&mut self, sink: Sink) {
        for f in CUSTOM {
            sink(Ev::new(Op::Const, fmt(f).name));
        }
        self.rows(&BIN, &["u6", "n6"], 100, sink);
        self.rows1(&[Op::Rint, Op::Next, Op::Prev], &["u6", "n6", "u7", "n7", "u8", "n8"], sink);
        for _ in 0..self.n(80000) {
            let f = self.custom();
            let e = self.any_op(f, true);
            sink(e);
        }
        for f in WIDE {
            sink(Ev::new(Op::Const, fmt(f).name));
        }
        for _ in 0..self.n(4000) {
            let e = self.wide_op();
            sink(e);
        }
    }
    /// An operation at a format with a very wide exponent.  Remainders across and printing of such exponents take
    /// seconds, and say little more than those at f128 do.
    fn wide_op(&mut self) -> Ev {
        let f = stat(*self.r.pick(&WIDE));
        let mut e = self.any_op(f, true);
        if e.f != f.name {
            return e;
        }
        let near = 1500;
        match (e.op, f.dec(e.a), f.dec(e.b)) {
            (Op::Fmod | Op::Rem, Some((_, _, x)), Some((s, m, y))) if m > 0 && (x - y).abs() > near && !self.r.chance(1, 40) => {
                e.b = f.enc(s, m, (x + self.r.range(-60, near as i64) as i32).clamp(f.emine(), f.emax - f.p as i32));
            }
            (Op::Show, Some((s, m, x)), _) if m > 0 && x.abs() > 2 * near => {
                e.a = f.enc(s, m, self.r.range(-2 * near as i64, 2 * near as i64) as i32);
            }
            _ => {}
        }
        e
    }

    /// One history: a program over a bank of registers; each group of four registers has a format of its own.
    pub fn history(&mut self) -> Vec<Ev> {
        let mut h = vec![Ev::new(Op::Begin, "f32")];
        let doubles = self.r.chance(1, 5);
        let groups: Vec<&'static str> = if doubles {
            (0..2).map(|_| self.dd_name()).collect()
        } else {
            (0..self.r.range(1, 3))
                .map(|i| {
                    if i == 0 && self.r.chance(1, 3) {
                        self.custom().name
                    } else if self.r.chance(1, 4) {
                        *self.r.pick(&CONV_TARGETS[..CONV_TARGETS.len() - WIDE.len()])
                    } else {
                        self.builtin().name
                    }
                })
                .collect()
        };
        let reg = |g: usize, r: &mut Rng| (g * 4 + r.below(4) as usize) as i8;
        let mut set = [false; crate::run::NREGS];
        let length = self.r.range(10, 70);
        for _ in 0..length {
            let g = self.r.below(groups.len() as u64) as usize;
            let f = groups[g];
            let mut e = if doubles { self.dd_step(f) } else { self.plain_step(f) };
            if e.op == Op::Conv {
                let to: Vec<usize> = (0..groups.len()).filter(|i| CONV_TARGETS.contains(&groups[*i])).collect();
                if to.is_empty() || e.f != f {
                    continue;
                }
                let t = *self.r.pick(&to);
                e.g = groups[t];
                e.rd = reg(t, &mut self.r);
            } else if !matches!(e.op, Op::Cmp | Op::Class | Op::ToInt | Op::Show | Op::ILogB | Op::Fresh | Op::Reset | Op::Dump | Op::Meta) {
                e.rd = reg(g, &mut self.r);
            }
            let operands = match e.op {
                Op::Fma => 3,
                Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Fmod | Op::Rem | Op::Cmp | Op::CopySign | Op::Pick => 2,
                Op::FromInt | Op::Parse | Op::NaN | Op::Load | Op::Named | Op::Reset | Op::Dump => 0,
                _ => 1,
            };
            // the directed operands, some of them, are loaded first
            let directed = self.r.chance(2, 5);
            for k in 0..operands {
                let q = reg(g, &mut self.r);
                e.rs[k] = q;
                if !set[q as usize] || (directed && self.r.chance(2, 3)) {
                    let mut l = Ev::new(Op::Load, f);
                    l.a = [e.a, e.b, e.c][k];
                    l.rd = q;
                    set[q as usize] = true;
                    h.push(l);
                }
            }
            if e.rd >= 0 && e.op != Op::Parse && e.op != Op::Inv {
                set[e.rd as usize] = true;
            }
            h.push(e);
            if self.r.chance(1, 12) {
                let x = h.last().unwrap();
                if x.rd >= 0 && x.op != Op::Parse && x.op != Op::Inv && x.op != Op::Conv {
                    let mut c = Ev::new(Op::Fresh, x.f);
                    c.rs[0] = x.rd;
                    h.push(c);
                }
            }
        }
        h.push(Ev::new(Op::Dump, "f32"));
        h
    }
    fn extra_step(&mut self, f: &P) -> Option<Ev> {
        let op = *self.r.pick(&[
            Op::Neg, Op::Abs, Op::CopySign, Op::Named, Op::Copy, Op::Pick, Op::Fresh, Op::Neg, Op::Pick, Op::Reset, Op::Dump,
        ]);
        if matches!(op, Op::Reset | Op::Dump) && !self.r.chance(1, 8) {
            return None;
        }
        let mut e = Ev::new(op, f.name);
        e.n = match op {
            Op::Named => self.r.below(7) as i32,
            Op::Pick => self.r.below(4) as i32,
            _ => 0,
        };
        Some(e)
    }
    fn plain_step(&mut self, f: &'static str) -> Ev {
        let p = ALL.iter().find(|p| p.name == f).unwrap();
        if self.r.chance(1, 4) {
            if let Some(mut e) = self.extra_step(p) {
                e.a = any(&mut self.r, p);
                e.b = any(&mut self.r, p);
                return e;
            }
        }
        self.any_op(p, false)
    }
    fn dd_step(&mut self, f: &'static str) -> Ev {
        let d = dd_base(f);
        if self.r.chance(1, 4) {
            if let Some(mut e) = self.extra_step(&fmt(f)) {
                e.a = dd(&mut self.r, &d);
                e.b = dd(&mut self.r, &d);
                return e;
            }
        }
        let ops = [
            Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Fma, Op::Rem, Op::Fmod, Op::Rint, Op::Next, Op::Prev, Op::Cmp, Op::Class, Op::ToInt,
            Op::FromInt, Op::Parse, Op::Show, Op::Scale, Op::ILogB, Op::Frexp, Op::Inv, Op::Add, Op::Sub, Op::Mul,
        ];
        let op = *self.r.pick(&ops);
        self.dd_ev_of(f, op)
    }
    pub fn histories(&mut self) -> Vec<Vec<Ev>> {
        let n = self.n(1200);
        (0..n).map(|_| self.history()).collect()
    }
    fn c22_single(&mut self, sink: Sink) {
        for n in 0..32 {
            for w in 0..32 {
                let mut e = Ev::new(Op::Meta, "f32");
                (e.n, e.w, e.rm) = (n, w, self.rm());
                e.a = self.r.u128();
                sink(e);
            }
        }
    }
}
