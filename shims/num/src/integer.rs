use crate::BigInt;
use num_traits::{Signed, Zero};

pub trait Integer: Sized {
    fn div_floor(&self, o: &Self) -> Self;
    fn mod_floor(&self, o: &Self) -> Self;
    fn div_rem(&self, o: &Self) -> (Self, Self);
    fn div_ceil(&self, o: &Self) -> Self;
    fn gcd(&self, o: &Self) -> Self;
    fn lcm(&self, o: &Self) -> Self;
    fn is_even(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_multiple_of(&self, o: &Self) -> bool;
    fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
        (self.div_floor(o), self.mod_floor(o))
    }
}
macro_rules! prim {
    ($($t:ty)*) => {$(
        impl Integer for $t {
            fn div_floor(&self, o: &Self) -> Self {
                let (q, r) = (self / o, self % o);
                if r != 0 && (r < 0) != (*o < 0) { q - 1 } else { q }
            }
            fn mod_floor(&self, o: &Self) -> Self {
                let r = self % o;
                if r != 0 && (r < 0) != (*o < 0) { r + o } else { r }
            }
            fn div_rem(&self, o: &Self) -> (Self, Self) { (self / o, self % o) }
            fn div_ceil(&self, o: &Self) -> Self {
                let (q, r) = (self / o, self % o);
                if r != 0 && (r < 0) == (*o < 0) { q + 1 } else { q }
            }
            fn gcd(&self, o: &Self) -> Self {
                let (mut a, mut b) = (self.unsigned_abs(), o.unsigned_abs());
                while b != 0 { (a, b) = (b, a % b); }
                a as $t
            }
            fn lcm(&self, o: &Self) -> Self {
                if *self == 0 || *o == 0 { 0 } else { (self / Integer::gcd(self, o) * o).abs() }
            }
            fn is_even(&self) -> bool { self & 1 == 0 }
            fn is_odd(&self) -> bool { self & 1 != 0 }
            fn is_multiple_of(&self, o: &Self) -> bool { if *o == 0 { *self == 0 } else { self % o == 0 } }
        }
    )*};
}
prim!(i32 i64 i128 isize);

impl Integer for BigInt {
    fn div_floor(&self, o: &Self) -> Self {
        let (q, r) = self.div_rem_trunc(o);
        if !r.is_zero() && r.is_negative() != o.is_negative() {
            q - 1
        } else {
            q
        }
    }
    fn mod_floor(&self, o: &Self) -> Self {
        let (_, r) = self.div_rem_trunc(o);
        if !r.is_zero() && r.is_negative() != o.is_negative() {
            r + o
        } else {
            r
        }
    }
    fn div_rem(&self, o: &Self) -> (Self, Self) {
        self.div_rem_trunc(o)
    }
    fn div_ceil(&self, o: &Self) -> Self {
        let (q, r) = self.div_rem_trunc(o);
        if !r.is_zero() && r.is_negative() == o.is_negative() {
            q + 1
        } else {
            q
        }
    }
    fn gcd(&self, o: &Self) -> Self {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let r = &a % &b;
            a = b;
            b = r;
        }
        a
    }
    fn lcm(&self, o: &Self) -> Self {
        if self.is_zero() || o.is_zero() {
            BigInt::zero()
        } else {
            (self / Integer::gcd(self, o) * o).abs()
        }
    }
    fn is_even(&self) -> bool {
        !self.bit(0)
    }
    fn is_odd(&self) -> bool {
        self.bit(0)
    }
    fn is_multiple_of(&self, o: &Self) -> bool {
        if o.is_zero() {
            self.is_zero()
        } else {
            (self % o).is_zero()
        }
    }
}
pub fn div_rem<T: Integer>(a: T, b: T) -> (T, T) {
    a.div_rem(&b)
}
pub fn div_floor<T: Integer>(a: T, b: T) -> T {
    a.div_floor(&b)
}
pub fn div_ceil<T: Integer>(a: T, b: T) -> T {
    a.div_ceil(&b)
}
pub fn mod_floor<T: Integer>(a: T, b: T) -> T {
    a.mod_floor(&b)
}
pub fn gcd<T: Integer>(a: T, b: T) -> T {
    a.gcd(&b)
}
pub fn lcm<T: Integer>(a: T, b: T) -> T {
    a.lcm(&b)
}
