//! A minimal unsigned bignum: enough to write exact decimal expansions.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(pub Vec<u32>);
impl Big {
    pub fn of(mut x: u128) -> Big {
        let mut v = vec![];
        while x != 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Big(v)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn mul_small(&mut self, m: u32) {
        let mut c = 0u64;
        for d in &mut self.0 {
            let t = *d as u64 * m as u64 + c;
            *d = t as u32;
            c = t >> 32;
        }
        if c != 0 {
            self.0.push(c as u32);
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn shl(&mut self, n: u32) {
        if self.is_zero() {
            return;
        }
        self.mul_small(1 << (n % 32).min(31));
        let words = (n / 32) as usize;
        let mut v = vec![0; words];
        v.append(&mut self.0);
        self.0 = v;
    }
    pub fn pow5(&mut self, mut n: u32) {
        while n >= 13 {
            self.mul_small(1220703125);
            n -= 13;
        }
        for _ in 0..n {
            self.mul_small(5);
        }
    }
    pub fn divrem_small(&mut self, m: u32) -> u32 {
        let mut r = 0u64;
        for d in self.0.iter_mut().rev() {
            let t = r << 32 | *d as u64;
            *d = (t / m as u64) as u32;
            r = t % m as u64;
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        r as u32
    }
    pub fn decimal(mut self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        while !self.is_zero() {
            parts.push(self.divrem_small(1_000_000_000));
        }
        let mut s = parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
}

/// The exact decimal expansion of m * 2^e: (digits, k) for digits * 10^k.
pub fn exact_decimal(m: u128, e: i32) -> (String, i32) {
    let mut b = Big::of(m);
    if e >= 0 {
        b.shl(e as u32);
        (b.decimal(), 0)
    } else {
        b.pow5((-e) as u32);
        (b.decimal(), e)
    }
}
