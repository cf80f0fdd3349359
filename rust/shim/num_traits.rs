//! stand-in for num_traits (f64 only)
use std::ops::*;
pub trait ToPrimitive { fn to_f64(&self) -> Option<f64>; }
macro_rules! prim { ($($t:ty),*) => { $( impl ToPrimitive for $t { fn to_f64(&self) -> Option<f64> { Some(*self as f64) } } )* } }
prim!(f64, f32, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
pub trait NumCast: Sized { fn from<T: ToPrimitive>(n: T) -> Option<Self>; }
impl NumCast for f64 { fn from<T: ToPrimitive>(n: T) -> Option<f64> { n.to_f64() } }
pub trait Zero { fn zero() -> Self; }
pub trait One { fn one() -> Self; }
impl Zero for f64 { fn zero() -> f64 { 0. } }
impl One for f64 { fn one() -> f64 { 1. } }
pub trait Float: NumCast + Copy + PartialOrd + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> {
    fn abs(self) -> Self;
    fn sqrt(self) -> Self;
    fn exp(self) -> Self;
    fn powi(self, n: i32) -> Self;
    fn powf(self, n: Self) -> Self;
    fn max(self, o: Self) -> Self;
    fn min(self, o: Self) -> Self;
    fn zero() -> Self;
    fn one() -> Self;
    fn is_nan(self) -> bool;
    fn is_finite(self) -> bool;
    fn epsilon() -> Self;
    fn is_infinite(self) -> bool;
    fn ln(self) -> Self;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn tanh(self) -> Self;
    fn floor(self) -> Self;
    fn ceil(self) -> Self;
    fn round(self) -> Self;
    fn signum(self) -> Self;
    fn recip(self) -> Self;
    fn hypot(self, o: Self) -> Self;
    fn mul_add(self, a: Self, b: Self) -> Self;
    fn infinity() -> Self;
    fn nan() -> Self;
    fn max_value() -> Self;
    fn min_positive_value() -> Self;
}
impl Float for f64 {
    fn abs(self) -> f64 { f64::abs(self) }
    fn sqrt(self) -> f64 { f64::sqrt(self) }
    fn exp(self) -> f64 { f64::exp(self) }
    fn powi(self, n: i32) -> f64 { f64::powi(self, n) }
    fn powf(self, n: f64) -> f64 { f64::powf(self, n) }
    fn max(self, o: f64) -> f64 { f64::max(self, o) }
    fn min(self, o: f64) -> f64 { f64::min(self, o) }
    fn zero() -> f64 { 0. }
    fn one() -> f64 { 1. }
    fn is_nan(self) -> bool { f64::is_nan(self) }
    fn is_finite(self) -> bool { f64::is_finite(self) }
    fn epsilon() -> f64 { f64::EPSILON }
    fn is_infinite(self) -> bool { f64::is_infinite(self) }
    fn ln(self) -> f64 { f64::ln(self) }
    fn sin(self) -> f64 { f64::sin(self) }
    fn cos(self) -> f64 { f64::cos(self) }
    fn tanh(self) -> f64 { f64::tanh(self) }
    fn floor(self) -> f64 { f64::floor(self) }
    fn ceil(self) -> f64 { f64::ceil(self) }
    fn round(self) -> f64 { f64::round(self) }
    fn signum(self) -> f64 { f64::signum(self) }
    fn recip(self) -> f64 { f64::recip(self) }
    fn hypot(self, o: f64) -> f64 { f64::hypot(self, o) }
    fn mul_add(self, a: f64, b: f64) -> f64 { f64::mul_add(self, a, b) }
    fn infinity() -> f64 { f64::INFINITY }
    fn nan() -> f64 { f64::NAN }
    fn max_value() -> f64 { f64::MAX }
    fn min_positive_value() -> f64 { f64::MIN_POSITIVE }
}
pub mod real { pub trait Real {} impl Real for f64 {} }
