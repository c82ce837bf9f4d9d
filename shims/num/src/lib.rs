//! Stand-in for the `num` crate, which is not available offline: big integers by the schoolbook
//! methods, complex numbers, and the traits of `num-traits`.
pub mod bigint;
pub mod complex;
pub mod integer;
pub use bigint::BigInt;
pub use complex::Complex;
pub use integer::Integer;
pub use num_traits::{self as traits, abs, signum, FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
