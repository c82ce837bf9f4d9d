use num_traits::{Num, One, Zero};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Complex<T> {
    pub re: T,
    pub im: T,
}
impl<T> Complex<T> {
    pub const fn new(re: T, im: T) -> Self {
        Complex { re, im }
    }
}
impl<T: Clone + Num> Complex<T> {
    pub fn norm_sqr(&self) -> T {
        self.re.clone() * self.re.clone() + self.im.clone() * self.im.clone()
    }
    pub fn powu(&self, mut n: u32) -> Self {
        let (mut b, mut r) = (self.clone(), Complex::new(T::one(), T::zero()));
        while n > 0 {
            if n & 1 == 1 {
                r = r * b.clone();
            }
            b = b.clone() * b;
            n >>= 1;
        }
        r
    }
}
impl<T: Clone + Num + Neg<Output = T>> Complex<T> {
    pub fn conj(&self) -> Self {
        Self::new(self.re.clone(), -self.im.clone())
    }
    pub fn inv(&self) -> Self {
        let n = self.norm_sqr();
        Self::new(self.re.clone() / n.clone(), -self.im.clone() / n)
    }
    pub fn powi(&self, n: i32) -> Self {
        if n < 0 {
            self.inv().powu(n.unsigned_abs())
        } else {
            self.powu(n as u32)
        }
    }
}
impl Complex<f64> {
    pub fn from_polar(r: f64, theta: f64) -> Self {
        Self::new(r * theta.cos(), r * theta.sin())
    }
    pub fn norm(&self) -> f64 {
        self.re.hypot(self.im)
    }
    pub fn arg(&self) -> f64 {
        self.im.atan2(self.re)
    }
    pub fn to_polar(&self) -> (f64, f64) {
        (self.norm(), self.arg())
    }
    pub fn exp(&self) -> Self {
        Self::from_polar(self.re.exp(), self.im)
    }
    pub fn ln(&self) -> Self {
        let (r, t) = self.to_polar();
        Self::new(r.ln(), t)
    }
    pub fn powc(&self, e: Self) -> Self {
        if e.re == 0.0 && e.im == 0.0 {
            return Self::new(1.0, 0.0);
        }
        let (r, theta) = self.to_polar();
        Self::from_polar(r.powf(e.re) * (-e.im * theta).exp(), e.re * theta + e.im * r.ln())
    }
    pub fn powf(&self, e: f64) -> Self {
        let (r, t) = self.to_polar();
        Self::from_polar(r.powf(e), t * e)
    }
}
impl<T: Clone + Num> From<T> for Complex<T> {
    fn from(re: T) -> Self {
        Complex { re, im: T::zero() }
    }
}
impl<T: std::fmt::Display + PartialOrd + Zero> std::fmt::Display for Complex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}{}i", self.re, if self.im < T::zero() { "" } else { "+" }, self.im)
    }
}
impl<T: Clone + Num> Add for Complex<T> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::new(self.re + o.re, self.im + o.im)
    }
}
impl<T: Clone + Num> Sub for Complex<T> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::new(self.re - o.re, self.im - o.im)
    }
}
impl<T: Clone + Num> Mul for Complex<T> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let re = self.re.clone() * o.re.clone() - self.im.clone() * o.im.clone();
        let im = self.re * o.im + self.im * o.re;
        Self::new(re, im)
    }
}
impl<T: Clone + Num> Div for Complex<T> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        let n = o.norm_sqr();
        let re = self.re.clone() * o.re.clone() + self.im.clone() * o.im.clone();
        let im = self.im * o.re - self.re * o.im;
        Self::new(re / n.clone(), im / n)
    }
}
impl<T: Clone + Num + Neg<Output = T>> Neg for Complex<T> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::new(-self.re, -self.im)
    }
}
macro_rules! refs {
    ($($tr:ident $f:ident)*) => {$(
        impl<'a, T: Clone + Num> $tr<&'a Complex<T>> for &'a Complex<T> {
            type Output = Complex<T>;
            fn $f(self, o: &Complex<T>) -> Complex<T> { self.clone().$f(o.clone()) }
        }
        impl<'a, T: Clone + Num> $tr<&'a Complex<T>> for Complex<T> {
            type Output = Complex<T>;
            fn $f(self, o: &Complex<T>) -> Complex<T> { self.$f(o.clone()) }
        }
        impl<'a, T: Clone + Num> $tr<Complex<T>> for &'a Complex<T> {
            type Output = Complex<T>;
            fn $f(self, o: Complex<T>) -> Complex<T> { self.clone().$f(o) }
        }
    )*};
}
refs!(Add add Sub sub Mul mul Div div Rem rem);
impl<T: Clone + Num> Rem for Complex<T> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        let q = self.clone() / o.clone();
        // truncated towards zero, as a Gaussian integer
        let trunc = |x: T| x.clone() - x % T::one();
        self - o * Self::new(trunc(q.re), trunc(q.im))
    }
}
impl<T: Clone + Num> Zero for Complex<T> {
    fn zero() -> Self {
        Self::new(T::zero(), T::zero())
    }
    fn is_zero(&self) -> bool {
        self.re.is_zero() && self.im.is_zero()
    }
}
impl<T: Clone + Num> One for Complex<T> {
    fn one() -> Self {
        Self::new(T::one(), T::zero())
    }
}
