use num_traits::{FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign {
        match self {
            Sign::Minus => Sign::Plus,
            Sign::NoSign => Sign::NoSign,
            Sign::Plus => Sign::Minus,
        }
    }
}

/// Sign and magnitude. No leading zero digits; zero is never negative.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    mag: Vec<u32>,
}
pub type BigUint = BigInt;

impl BigInt {
    pub const ZERO: BigInt = BigInt { neg: false, mag: Vec::new() };
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for i64 {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt::from(*self))
    }
}
impl ToBigInt for f64 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f64(*self)
    }
}

fn trim(mut m: Vec<u32>) -> Vec<u32> {
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
/// a >= b
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    assert_eq!(c, 0);
    trim(r)
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let s = *x as u64 * *y as u64 + r[i + j] as u64 + c;
            r[i + j] = s as u32;
            c = s >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}
fn divrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let x = r << 32 | a[i] as u64;
        q[i] = (x / d as u64) as u32;
        r = x % d as u64;
    }
    (trim(q), r as u32)
}
fn shl_mag(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let (w, b) = (n / 32, n % 32);
    let mut r = vec![0; w];
    let mut c = 0u64;
    for x in a {
        let s = (*x as u64) << b | c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
fn shr_mag(a: &[u32], n: usize) -> Vec<u32> {
    let (w, b) = (n / 32, n % 32);
    if w >= a.len() {
        return vec![];
    }
    let a = &a[w..];
    let mut r = vec![];
    for i in 0..a.len() {
        let hi = *a.get(i + 1).unwrap_or(&0) as u64;
        r.push(((hi << 32 | a[i] as u64) >> b) as u32);
    }
    trim(r)
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "attempt to divide by zero");
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = divrem_small(a, b[0]);
        return (q, trim(vec![r]));
    }
    // Knuth, algorithm D
    let s = b.last().unwrap().leading_zeros() as usize;
    let b = shl_mag(b, s);
    let mut a = shl_mag(a, s);
    a.push(0);
    let n = b.len();
    let m = a.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((*a.get(j + n).unwrap_or(&0) as u64) << 32) | a[j + n - 1] as u64;
        let (mut qh, mut rh) = (num / b[n - 1] as u64, num % b[n - 1] as u64);
        while qh >= 1 << 32 || qh * b[n - 2] as u64 > (rh << 32 | a[j + n - 2] as u64) {
            qh -= 1;
            rh += b[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * b[i] as u64 + carry;
            carry = p >> 32;
            let t = a[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            a[i + j] = t as u32;
            borrow = (t < 0) as i64;
        }
        let t = a[j + n] as i64 - borrow - carry as i64;
        a[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = a[i + j] as u64 + b[i] as u64 + c;
                a[i + j] = t as u32;
                c = t >> 32;
            }
            a[j + n] = (a[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    (trim(q), shr_mag(&trim(a), s))
}

impl BigInt {
    fn make(neg: bool, mag: Vec<u32>) -> Self {
        let mag = trim(mag);
        BigInt { neg: neg && !mag.is_empty(), mag }
    }
    pub fn new(sign: Sign, digits: Vec<u32>) -> Self {
        Self::make(sign == Sign::Minus, digits)
    }
    pub fn from_slice(sign: Sign, digits: &[u32]) -> Self {
        Self::make(sign == Sign::Minus, digits.to_vec())
    }
    pub fn sign(&self) -> Sign {
        match (self.mag.is_empty(), self.neg) {
            (true, _) => Sign::NoSign,
            (_, true) => Sign::Minus,
            _ => Sign::Plus,
        }
    }
    pub fn magnitude(&self) -> BigInt {
        BigInt { neg: false, mag: self.mag.clone() }
    }
    pub fn bits(&self) -> u64 {
        match self.mag.last() {
            None => 0,
            Some(d) => self.mag.len() as u64 * 32 - d.leading_zeros() as u64,
        }
    }
    /// Bit of the two's complement representation.
    pub fn bit(&self, n: u64) -> bool {
        let (w, b) = ((n / 32) as usize, n % 32);
        if w >= self.mag.len() {
            return self.neg;
        }
        if !self.neg {
            return self.mag[w] >> b & 1 == 1;
        }
        self.twos(w + 1)[w] >> b & 1 == 1
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        let w = self.mag.iter().position(|d| *d != 0)?;
        Some(w as u64 * 32 + self.mag[w].trailing_zeros() as u64)
    }
    /// Two's complement in `len` digits.
    fn twos(&self, len: usize) -> Vec<u32> {
        let mut v = self.mag.clone();
        v.resize(len.max(v.len()), 0);
        if self.neg {
            let mut c = 1u64;
            for d in &mut v {
                let s = !*d as u64 + c;
                *d = s as u32;
                c = s >> 32;
            }
        }
        v.truncate(len);
        v
    }
    fn from_twos(mut v: Vec<u32>) -> BigInt {
        let neg = v.last().is_some_and(|d| d >> 31 == 1);
        if neg {
            let mut c = 1u64;
            for d in &mut v {
                let s = !*d as u64 + c;
                *d = s as u32;
                c = s >> 32;
            }
        }
        BigInt::make(neg, v)
    }
    fn bitop(&self, o: &BigInt, f: impl Fn(u32, u32) -> u32) -> BigInt {
        let n = self.mag.len().max(o.mag.len()) + 1;
        Self::from_twos(self.twos(n).into_iter().zip(o.twos(n)).map(|(a, b)| f(a, b)).collect())
    }
    pub fn div_rem_trunc(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (BigInt::make(self.neg != o.neg, q), BigInt::make(self.neg, r))
    }
    pub fn pow(&self, mut n: u32) -> BigInt {
        let (mut b, mut r) = (self.clone(), BigInt::one());
        while n > 0 {
            if n & 1 == 1 {
                r = &r * &b;
            }
            n >>= 1;
            if n > 0 {
                b = &b * &b;
            }
        }
        r
    }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        use crate::Integer;
        assert!(!e.neg);
        let (mut b, mut r) = (self.mod_floor(m), BigInt::one().mod_floor(m));
        for i in 0..e.bits() {
            if e.bit(i) {
                r = (&r * &b).mod_floor(m);
            }
            b = (&b * &b).mod_floor(m);
        }
        r
    }
    pub fn sqrt(&self) -> BigInt {
        assert!(!self.neg);
        if self.is_zero() {
            return BigInt::zero();
        }
        let mut x = BigInt::one() << ((self.bits() + 1) / 2) as usize;
        loop {
            let y: BigInt = (&x + self / &x) >> 1usize;
            if y >= x {
                return x;
            }
            x = y;
        }
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        (self.sign(), self.mag.clone())
    }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
        self.mag.clone().into_iter()
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        let v = self.mag.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect();
        (self.sign(), v)
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().1.into_iter()
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let mut v: Vec<u8> = self.mag.iter().flat_map(|d| d.to_le_bytes()).collect();
        while v.len() > 1 && v.last() == Some(&0) {
            v.pop();
        }
        if v.is_empty() {
            v.push(0);
        }
        (self.sign(), v)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        let (s, mut v) = self.to_bytes_le();
        v.reverse();
        (s, v)
    }
    pub fn from_bytes_le(sign: Sign, b: &[u8]) -> BigInt {
        let mag = b
            .chunks(4)
            .map(|c| c.iter().enumerate().fold(0u32, |a, (i, x)| a | (*x as u32) << (8 * i)))
            .collect();
        Self::make(sign == Sign::Minus, mag)
    }
    pub fn from_bytes_be(sign: Sign, b: &[u8]) -> BigInt {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_bytes_le(sign, &v)
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.twos(self.mag.len() + 1).iter().flat_map(|d| d.to_le_bytes()).collect();
        let fill = if self.neg { 0xff } else { 0 };
        while v.len() > 1 && v[v.len() - 1] == fill && (v[v.len() - 2] ^ fill) & 0x80 == 0 {
            v.pop();
        }
        v
    }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_signed_bytes_le();
        v.reverse();
        v
    }
    pub fn from_signed_bytes_le(b: &[u8]) -> BigInt {
        let neg = b.last().is_some_and(|x| x & 0x80 != 0);
        let mut v: Vec<u32> = b
            .chunks(4)
            .map(|c| {
                let mut d = [if neg { 0xff } else { 0 }; 4];
                d[..c.len()].copy_from_slice(c);
                u32::from_le_bytes(d)
            })
            .collect();
        v.push(if neg { u32::MAX } else { 0 });
        Self::from_twos(v)
    }
    pub fn from_signed_bytes_be(b: &[u8]) -> BigInt {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_signed_bytes_le(&v)
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        if self.mag.is_empty() {
            return "0".into();
        }
        let mut chunk = radix;
        let mut n = 1;
        while let Some(c) = chunk.checked_mul(radix) {
            chunk = c;
            n += 1;
        }
        let mut m = self.mag.clone();
        let mut out = vec![];
        while !m.is_empty() {
            let (q, mut r) = divrem_small(&m, chunk);
            m = q;
            for _ in 0..n {
                out.push(std::char::from_digit(r % radix, radix).unwrap() as u8);
                r /= radix;
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        if self.neg {
            out.push(b'-');
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigInt> {
        let s = std::str::from_utf8(b).ok()?;
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s.strip_prefix('+').unwrap_or(s)),
        };
        if d.is_empty() || d.starts_with('_') {
            return None;
        }
        let mut mag: Vec<u32> = vec![];
        for c in d.chars() {
            if c == '_' {
                continue;
            }
            let v = c.to_digit(radix)?;
            let mut carry = v as u64;
            for d in &mut mag {
                let s = *d as u64 * radix as u64 + carry;
                *d = s as u32;
                carry = s >> 32;
            }
            if carry != 0 {
                mag.push(carry as u32);
            }
        }
        Some(BigInt::make(neg, mag))
    }
    pub fn set_bit(&mut self, n: u64, v: bool) {
        let m = BigInt::one() << n as usize;
        *self = if v { &*self | &m } else { &*self & &!m };
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl std::fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}
impl std::str::FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        BigInt::parse_bytes(s.as_bytes(), 10).ok_or(ParseBigIntError)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr> {
        BigInt::parse_bytes(s.as_bytes(), radix).ok_or(ParseBigIntError)
    }
}
impl std::fmt::Display for BigInt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad_integral(!self.neg, "", &self.magnitude().to_str_radix(10))
    }
}
impl std::fmt::Debug for BigInt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
macro_rules! radix_fmt {
    ($($t:ident $r:literal $p:literal $up:literal)*) => {$(
        impl std::fmt::$t for BigInt {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let s = self.magnitude().to_str_radix($r);
                f.pad_integral(!self.neg, $p, &if $up { s.to_uppercase() } else { s })
            }
        }
    )*};
}
radix_fmt!(LowerHex 16 "0x" false UpperHex 16 "0x" true Octal 8 "0o" false Binary 2 "0b" false);

impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(
        impl From<$t> for BigInt {
            fn from(v: $t) -> Self {
                #[allow(unused_comparisons)]
                let neg = v < 0;
                let mut m = if neg { (v as i128).unsigned_abs() } else { v as u128 };
                let mut mag = vec![];
                while m != 0 {
                    mag.push(m as u32);
                    m >>= 32;
                }
                BigInt { neg, mag }
            }
        }
        impl TryFrom<&BigInt> for $t {
            type Error = ();
            fn try_from(b: &BigInt) -> Result<Self, ()> {
                if b.neg {
                    <$t>::try_from(b.to_i128().ok_or(())?).map_err(|_| ())
                } else {
                    <$t>::try_from(b.to_u128().ok_or(())?).map_err(|_| ())
                }
            }
        }
        impl TryFrom<BigInt> for $t {
            type Error = ();
            fn try_from(b: BigInt) -> Result<Self, ()> {
                <$t>::try_from(&b)
            }
        }
    )*};
}
from_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.to_i128()?).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.to_u128()?).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        if self.mag.len() > 4 {
            return None;
        }
        let m = self.mag.iter().rev().fold(0u128, |a, d| a << 32 | *d as u128);
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 {
            return None;
        }
        Some(self.mag.iter().rev().fold(0u128, |a, d| a << 32 | *d as u128))
    }
    /// Round to nearest, ties to even; infinite when out of range.
    fn to_f64(&self) -> Option<f64> {
        let bits = self.bits();
        let v = if bits <= 64 {
            self.mag.iter().rev().fold(0u64, |a, d| a << 32 | *d as u64) as f64
        } else if bits > 1024 {
            f64::INFINITY
        } else {
            let s = bits as usize - 64;
            let top = shr_mag(&self.mag, s);
            let mut t = top.iter().rev().fold(0u64, |a, d| a << 32 | *d as u64);
            // sticky bit for what was cut off
            if self.trailing_zeros().unwrap() < s as u64 {
                t |= 1;
            }
            t as f64 * 2f64.powi(s as i32)
        };
        Some(if self.neg { -v } else { v })
    }
    fn to_f32(&self) -> Option<f32> {
        self.to_f64().map(|f| f as f32)
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<Self> {
        Some(n.into())
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(n.into())
    }
    fn from_i128(n: i128) -> Option<Self> {
        Some(n.into())
    }
    fn from_u128(n: u128) -> Option<Self> {
        Some(n.into())
    }
    fn from_f64(f: f64) -> Option<Self> {
        if !f.is_finite() {
            return None;
        }
        let f = f.trunc();
        let bits = f.to_bits();
        let e = (bits >> 52 & 0x7ff) as i32;
        if e == 0 {
            return Some(BigInt::zero());
        }
        let m = BigInt::from((bits & ((1 << 52) - 1)) | 1 << 52);
        let s = e - 1075;
        let m = if s >= 0 { m << s as usize } else { m >> (-s) as usize };
        Some(if f < 0.0 { -m } else { m })
    }
}
impl Zero for BigInt {
    fn zero() -> Self {
        BigInt::default()
    }
    fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt::from(1)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        self.magnitude()
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            BigInt::zero()
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        BigInt::from(match self.sign() {
            Sign::Minus => -1,
            Sign::NoSign => 0,
            Sign::Plus => 1,
        })
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::make(!self.neg, self.mag)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        -self.clone()
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - 1
    }
}
impl Not for &BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        !self.clone()
    }
}
fn add(a: &BigInt, b: &BigInt) -> BigInt {
    if a.neg == b.neg {
        return BigInt::make(a.neg, add_mag(&a.mag, &b.mag));
    }
    match cmp_mag(&a.mag, &b.mag) {
        Ordering::Less => BigInt::make(b.neg, sub_mag(&b.mag, &a.mag)),
        _ => BigInt::make(a.neg, sub_mag(&a.mag, &b.mag)),
    }
}
fn sub(a: &BigInt, b: &BigInt) -> BigInt {
    add(a, &-b)
}
fn mul(a: &BigInt, b: &BigInt) -> BigInt {
    BigInt::make(a.neg != b.neg, mul_mag(&a.mag, &b.mag))
}
fn div(a: &BigInt, b: &BigInt) -> BigInt {
    a.div_rem_trunc(b).0
}
fn rem(a: &BigInt, b: &BigInt) -> BigInt {
    a.div_rem_trunc(b).1
}
fn bitand(a: &BigInt, b: &BigInt) -> BigInt {
    a.bitop(b, |x, y| x & y)
}
fn bitor(a: &BigInt, b: &BigInt) -> BigInt {
    a.bitop(b, |x, y| x | y)
}
fn bitxor(a: &BigInt, b: &BigInt) -> BigInt {
    a.bitop(b, |x, y| x ^ y)
}
macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident)*) => {$(
        impl $tr for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { $f(&self, &o) } }
        impl $tr<&BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { $f(&self, o) } }
        impl $tr<BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { $f(self, &o) } }
        impl $tr<&BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { $f(self, o) } }
        impl $tra for BigInt { fn $fa(&mut self, o: BigInt) { *self = $f(self, &o) } }
        impl $tra<&BigInt> for BigInt { fn $fa(&mut self, o: &BigInt) { *self = $f(self, o) } }
        prim_ops!{$tr $f $tra $fa i32 i64 i128 u8 u16 u32 u64 u128 usize isize}
    )*};
}
macro_rules! prim_ops {
    ($tr:ident $f:ident $tra:ident $fa:ident $($t:ty)*) => {$(
        impl $tr<$t> for BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { $f(&self, &o.into()) } }
        impl $tr<$t> for &BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { $f(self, &o.into()) } }
        impl $tr<BigInt> for $t { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { $f(&self.into(), &o) } }
        impl $tr<&BigInt> for $t { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { $f(&self.into(), o) } }
        impl $tra<$t> for BigInt { fn $fa(&mut self, o: $t) { *self = $f(self, &o.into()) } }
    )*};
}
ops!(Add add AddAssign add_assign Sub sub SubAssign sub_assign Mul mul MulAssign mul_assign
     Div div DivAssign div_assign Rem rem RemAssign rem_assign
     BitAnd bitand BitAndAssign bitand_assign BitOr bitor BitOrAssign bitor_assign BitXor bitxor BitXorAssign bitxor_assign);

fn shr_floor(a: &BigInt, n: usize) -> BigInt {
    let r = BigInt::make(a.neg, shr_mag(&a.mag, n));
    if a.neg && a.trailing_zeros().unwrap() < n as u64 {
        r - 1
    } else {
        r
    }
}
macro_rules! shifts {
    ($($t:ty)*) => {$(
        impl Shl<$t> for BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { BigInt::make(self.neg, shl_mag(&self.mag, n as usize)) } }
        impl Shl<$t> for &BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { BigInt::make(self.neg, shl_mag(&self.mag, n as usize)) } }
        impl ShlAssign<$t> for BigInt { fn shl_assign(&mut self, n: $t) { *self = &*self << n } }
        impl Shr<$t> for BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { shr_floor(&self, n as usize) } }
        impl Shr<$t> for &BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { shr_floor(self, n as usize) } }
        impl ShrAssign<$t> for BigInt { fn shr_assign(&mut self, n: $t) { *self = &*self >> n } }
    )*};
}
shifts!(i32 i64 u8 u32 u64 usize isize);
impl std::iter::Sum for BigInt {
    fn sum<I: Iterator<Item = BigInt>>(i: I) -> BigInt {
        i.fold(BigInt::zero(), |a, b| a + b)
    }
}
impl std::iter::Product for BigInt {
    fn product<I: Iterator<Item = BigInt>>(i: I) -> BigInt {
        i.fold(BigInt::one(), |a, b| a * b)
    }
}
