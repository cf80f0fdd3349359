//! stand-in for assert_approx_eq
#[macro_export]
macro_rules! assert_approx_eq {
    ($a:expr, $b:expr, $e:expr) => { { let (a, b, e) = ($a, $b, $e); assert!((a - b).abs() <= e, "{:?} {:?}", a, b) } };
    ($a:expr, $b:expr) => { $crate::assert_approx_eq!($a, $b, 1e-6) };
}
