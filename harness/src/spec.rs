//! Reference values and comparisons used by several oracles. None of it calls micromath.

pub const EPS: f64 = 5.960_464_477_539_063e-8; // half an ulp of 1.0f32

#[inline(always)]
pub fn f(b: u32) -> f32 {
    f32::from_bits(b)
}
#[inline(always)]
pub fn normal(x: f32) -> bool {
    x.is_normal()
}
/// Equal as numbers (zeros of either sign are equal), or both NaN.
#[inline(always)]
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// The same bits, or both NaN.
#[inline(always)]
pub fn same_bits(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Relative error of `got` against a non-zero reference.
#[inline(always)]
pub fn rel(got: f32, want: f64) -> f64 {
    ((got as f64 - want) / want).abs()
}
/// Distance of two angles modulo the period.
pub fn circ(a: f64, b: f64, period: f64) -> f64 {
    let d = (a - b).rem_euclid(period);
    d.min(period - d)
}
