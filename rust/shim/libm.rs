//! stand-in for libm
pub fn frexp(x: f64) -> (f64, i32) {
    if x == 0. || !x.is_finite() { return (x, 0) }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    if e == 0 { let (m, k) = frexp(x * 18014398509481984.); return (m, k - 54) }
    (f64::from_bits((b & !(0x7ffu64 << 52)) | (1022u64 << 52)), e - 1022)
}
