//! 512-bit two's complement integers: the independent arithmetic the interpreter's integers are
//! compared with. Deliberately the plainest algorithms (bit by bit division, shift and add).

use std::cmp::Ordering;

const N: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct W(pub [u64; N]);

impl From<i128> for W {
    fn from(x: i128) -> W {
        let fill = if x < 0 { u64::MAX } else { 0 };
        let mut r = [fill; N];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        W(r)
    }
}

impl W {
    pub fn is_neg(&self) -> bool {
        self.0[N - 1] >> 63 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; N]
    }
    pub fn add(self, o: W) -> W {
        let mut r = [0; N];
        let mut c = 0u128;
        for i in 0..N {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        W(r)
    }
    pub fn not(self) -> W {
        let mut r = self.0;
        r.iter_mut().for_each(|x| *x = !*x);
        W(r)
    }
    pub fn neg(self) -> W {
        self.not().add(W::from(1))
    }
    pub fn sub(self, o: W) -> W {
        self.add(o.neg())
    }
    pub fn abs(self) -> W {
        if self.is_neg() { self.neg() } else { self }
    }
    pub fn bit(&self, i: usize) -> bool {
        if i >= 64 * N { self.is_neg() } else { self.0[i / 64] >> (i % 64) & 1 == 1 }
    }
    pub fn shl1(self) -> W {
        self.add(self)
    }
    pub fn shl(self, n: usize) -> W {
        let mut r = self;
        for _ in 0..n {
            r = r.shl1();
        }
        r
    }
    /// Arithmetic shift to the right (towards minus infinity).
    pub fn shr(self, n: usize) -> W {
        let mut r = W::from(0);
        for i in 0..64 * N {
            if self.bit(i + n) {
                r.0[i / 64] |= 1 << (i % 64);
            }
        }
        r
    }
    pub fn mul(self, o: W) -> W {
        let (a, b) = (self.abs(), o.abs());
        let mut r = W::from(0);
        let mut s = a;
        for i in 0..b.bits() {
            if b.bit(i) {
                r = r.add(s);
            }
            s = s.shl1();
        }
        if self.is_neg() != o.is_neg() { r.neg() } else { r }
    }
    /// Number of bits of a non-negative number.
    pub fn bits(&self) -> usize {
        (0..64 * N).rev().find(|&i| self.bit(i)).map_or(0, |i| i + 1)
    }
    pub fn cmp(&self, o: &W) -> Ordering {
        let d = self.sub(*o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.is_neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    fn udivmod(self, o: W) -> (W, W) {
        let mut q = W::from(0);
        let mut r = W::from(0);
        for i in (0..self.bits()).rev() {
            r = r.shl1();
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if r.cmp(&o) != Ordering::Less {
                r = r.sub(o);
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    /// Quotient towards zero and the remainder that goes with it.
    pub fn quorem(self, o: W) -> (W, W) {
        let (q, r) = self.abs().udivmod(o.abs());
        (
            if self.is_neg() != o.is_neg() { q.neg() } else { q },
            if self.is_neg() { r.neg() } else { r },
        )
    }
    /// Quotient towards minus infinity and the remainder that goes with it.
    pub fn divmod(self, o: W) -> (W, W) {
        let (q, r) = self.quorem(o);
        if !r.is_zero() && r.is_neg() != o.is_neg() {
            (q.sub(W::from(1)), r.add(o))
        } else {
            (q, r)
        }
    }
    pub fn and(self, o: W) -> W {
        let mut r = self;
        (0..N).for_each(|i| r.0[i] &= o.0[i]);
        r
    }
    pub fn or(self, o: W) -> W {
        let mut r = self;
        (0..N).for_each(|i| r.0[i] |= o.0[i]);
        r
    }
    pub fn xor(self, o: W) -> W {
        let mut r = self;
        (0..N).for_each(|i| r.0[i] ^= o.0[i]);
        r
    }
    pub fn gcd(self, o: W) -> W {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            (a, b) = (b, a.udivmod(b).1);
        }
        a
    }
    pub fn pow(self, e: usize) -> W {
        let mut r = W::from(1);
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// The nearest float, ties to even.
    pub fn to_f64(&self) -> f64 {
        let m = self.abs();
        let n = m.bits();
        let v = if n <= 64 {
            m.0[0] as f64
        } else {
            let top = m.shr(n - 64);
            let sticky = top.shl(n - 64) != m;
            (top.0[0] | sticky as u64) as f64 * 2f64.powi((n - 64) as i32)
        };
        if self.is_neg() { -v } else { v }
    }
    /// The integer part of a finite float below 2^500.
    pub fn trunc(x: f64) -> W {
        let bits = x.abs().to_bits();
        let e = (bits >> 52) as i32 - 1075;
        if bits >> 52 == 0 {
            return W::from(0);
        }
        let m = W::from(((bits & ((1 << 52) - 1)) | 1 << 52) as i128);
        let v = if e >= 0 { m.shl(e as usize) } else if e > -64 { m.shr(-e as usize) } else { W::from(0) };
        if x < 0.0 { v.neg() } else { v }
    }
    pub fn to_i128(&self) -> Option<i128> {
        let v = (self.0[1] as u128) << 64 | self.0[0] as u128;
        (W::from(v as i128) == *self).then_some(v as i128)
    }
    pub fn radix(&self, base: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = vec![];
        let mut a = self.abs();
        let b = W::from(base as i128);
        while !a.is_zero() {
            let (q, r) = a.udivmod(b);
            s.push(char::from_digit(r.0[0] as u32, base).unwrap());
            a = q;
        }
        if self.is_neg() {
            s.push('-');
        }
        s.iter().rev().collect()
    }
}

impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.radix(10))
    }
}
