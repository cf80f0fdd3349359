//! stand-in for the traits of the faer crate (fields f64 and c64)
use std::fmt::Debug;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Debug, Default)]
#[allow(non_camel_case_types)]
pub struct c64 { pub re: f64, pub im: f64 }

impl c64 {
    pub const fn new(re: f64, im: f64) -> Self { Self { re, im } }
    pub fn conj(self) -> Self { Self::new(self.re, -self.im) }
    pub fn norm(self) -> f64 { self.re.hypot(self.im) }
    pub fn norm_sqr(self) -> f64 { self.re * self.re + self.im * self.im }
    pub fn exp(self) -> Self { let r = self.re.exp(); Self::new(r * self.im.cos(), r * self.im.sin()) }
    pub fn inv(self) -> Self { Self::new(1., 0.) / self }
    pub fn arg(self) -> f64 { self.im.atan2(self.re) }
    pub fn abs(self) -> f64 { self.norm() }
    pub fn abs2(self) -> f64 { self.norm_sqr() }
    pub fn from_polar(r: f64, a: f64) -> Self { Self::new(r * a.cos(), r * a.sin()) }
    pub fn ln(self) -> Self { Self::new(self.norm().ln(), self.arg()) }
    pub fn sqrt(self) -> Self { Self::from_polar(self.norm().sqrt(), self.arg() / 2.) }
    pub fn powf(self, p: f64) -> Self { if self.norm() == 0. { self } else { Self::from_polar(self.norm().powf(p), self.arg() * p) } }
    pub fn powc(self, p: Self) -> Self { (self.ln() * p).exp() }
    pub fn scale(self, x: f64) -> Self { self * x }
    pub fn unscale(self, x: f64) -> Self { self / x }
    pub fn i() -> Self { Self::new(0., 1.) }
    pub const I: Self = Self::new(0., 1.);
    pub const ZERO: Self = Self::new(0., 0.);
    pub const ONE: Self = Self::new(1., 0.);
    pub fn is_nan(self) -> bool { self.re.is_nan() || self.im.is_nan() }
    pub fn is_finite(self) -> bool { self.re.is_finite() && self.im.is_finite() }
    pub fn powu(self, n: u32) -> Self { self.powi(n as i32) }
    pub fn powi(self, n: i32) -> Self {
        let mut r = Self::new(1., 0.);
        for _ in 0..n.abs() { r = r * self; }
        if n < 0 { Self::new(1., 0.) / r } else { r }
    }
}
impl From<f64> for c64 { fn from(x: f64) -> Self { Self::new(x, 0.) } }
impl Add for c64 { type Output = c64; fn add(self, o: c64) -> c64 { c64::new(self.re + o.re, self.im + o.im) } }
impl Sub for c64 { type Output = c64; fn sub(self, o: c64) -> c64 { c64::new(self.re - o.re, self.im - o.im) } }
impl Mul for c64 { type Output = c64; fn mul(self, o: c64) -> c64 { c64::new(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) } }
impl Div for c64 { type Output = c64; fn div(self, o: c64) -> c64 {
    let d = o.norm(); let (a, b) = (o.re / d, o.im / d);
    c64::new((self.re * a + self.im * b) / d, (self.im * a - self.re * b) / d) } }
impl Neg for c64 { type Output = c64; fn neg(self) -> c64 { c64::new(-self.re, -self.im) } }
impl Mul<f64> for c64 { type Output = c64; fn mul(self, o: f64) -> c64 { c64::new(self.re * o, self.im * o) } }
impl Mul<c64> for f64 { type Output = c64; fn mul(self, o: c64) -> c64 { o * self } }
impl Add<f64> for c64 { type Output = c64; fn add(self, o: f64) -> c64 { c64::new(self.re + o, self.im) } }
impl Sub<f64> for c64 { type Output = c64; fn sub(self, o: f64) -> c64 { c64::new(self.re - o, self.im) } }
impl Div<f64> for c64 { type Output = c64; fn div(self, o: f64) -> c64 { c64::new(self.re / o, self.im / o) } }

impl Add<c64> for f64 { type Output = c64; fn add(self, o: c64) -> c64 { o + self } }
impl Sub<c64> for f64 { type Output = c64; fn sub(self, o: c64) -> c64 { -o + self } }
impl Div<c64> for f64 { type Output = c64; fn div(self, o: c64) -> c64 { c64::new(self, 0.) / o } }
macro_rules! refs { ($($tr:ident $f:ident $ta:ident $fa:ident),*) => { $(
    impl<'a> $tr<&'a c64> for c64 { type Output = c64; fn $f(self, o: &c64) -> c64 { $tr::$f(self, *o) } }
    impl<'a> $tr<c64> for &'a c64 { type Output = c64; fn $f(self, o: c64) -> c64 { $tr::$f(*self, o) } }
    impl<'a, 'b> $tr<&'b c64> for &'a c64 { type Output = c64; fn $f(self, o: &c64) -> c64 { $tr::$f(*self, *o) } }
    impl<'a> $tr<f64> for &'a c64 { type Output = c64; fn $f(self, o: f64) -> c64 { $tr::$f(*self, o) } }
    impl $ta for c64 { fn $fa(&mut self, o: c64) { *self = $tr::$f(*self, o) } }
    impl $ta<f64> for c64 { fn $fa(&mut self, o: f64) { *self = $tr::$f(*self, o) } }
)* } }
refs!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign);
impl std::iter::Sum for c64 { fn sum<I: Iterator<Item = c64>>(i: I) -> c64 { i.fold(c64::ZERO, |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a c64> for c64 { fn sum<I: Iterator<Item = &'a c64>>(i: I) -> c64 { i.fold(c64::ZERO, |a, b| a + *b) } }
impl std::iter::Product for c64 { fn product<I: Iterator<Item = c64>>(i: I) -> c64 { i.fold(c64::ONE, |a, b| a * b) } }
impl std::fmt::Display for c64 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}+{}i", self.re, self.im) } }

pub trait ComplexField: Copy + PartialEq + Debug + Send + Sync + 'static
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self>
{
    fn fld(x: f64) -> Self;
    fn mag(self) -> f64;
    fn cnj(self) -> Self;
}
pub trait RealField: ComplexField + PartialOrd {}
impl ComplexField for f64 { fn fld(x: f64) -> f64 { x } fn mag(self) -> f64 { self.abs() } fn cnj(self) -> f64 { self } }
impl ComplexField for c64 { fn fld(x: f64) -> c64 { c64::new(x, 0.) } fn mag(self) -> f64 { self.norm() } fn cnj(self) -> c64 { self.conj() } }
impl RealField for f64 {}

pub mod math_utils {
    use super::ComplexField;
    pub fn zero<T: ComplexField>() -> T { T::fld(0.) }
    pub fn one<T: ComplexField>() -> T { T::fld(1.) }
    pub fn abs1<T: ComplexField>(x: &T) -> f64 { x.mag() }
    pub fn abs2<T: ComplexField>(x: &T) -> f64 { x.mag() * x.mag() }
    pub fn sqrt<T: super::RealField>(x: &T) -> T { T::fld(x.mag().sqrt()) }
    pub fn conj<T: ComplexField>(x: &T) -> T { x.cnj() }
    pub fn add<T: ComplexField>(x: &T, y: &T) -> T { *x + *y }
    pub fn sub<T: ComplexField>(x: &T, y: &T) -> T { *x - *y }
    pub fn mul<T: ComplexField>(x: &T, y: &T) -> T { *x * *y }
    pub fn div<T: ComplexField>(x: &T, y: &T) -> T { *x / *y }
    pub fn abs<T: super::ComplexField>(x: &T) -> f64 { x.mag() } }
