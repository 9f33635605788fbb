//! Reference functions (exact or correctly rounded mathematics), external to the code under
//! verification: the verifier interprets them, the replay program links them to libm.
#[allow(improper_ctypes)]
extern "C" {
    pub fn ref_floorf(x: f32) -> f32;
    pub fn ref_ceilf(x: f32) -> f32;
    pub fn ref_roundf(x: f32) -> f32;
    pub fn ref_truncf(x: f32) -> f32;
    pub fn ref_sin(x: f64) -> f64;
    pub fn ref_cos(x: f64) -> f64;
    pub fn ref_tan(x: f64) -> f64;
    pub fn ref_atan(x: f64) -> f64;
    pub fn ref_asin(x: f64) -> f64;
    pub fn ref_acos(x: f64) -> f64;
    pub fn ref_atan2(y: f64, x: f64) -> f64;
    pub fn ref_exp(x: f64) -> f64;
    pub fn ref_ln(x: f64) -> f64;
    pub fn ref_sqrt(x: f64) -> f64;
    pub fn ref_cosh(x: f64) -> f64;
    pub fn ref_pow(x: f64, n: f64) -> f64;
    pub fn ref_of_atan2(r: f32, y: f64, ey: f64, x: f64, ex: f64) -> bool;
    pub fn ref_of_asin(r: f32, x: f64, e: f64) -> bool;
}
macro_rules! safe1 { ($($n:ident $f:ident $t:ty),* $(,)?) => { $( #[inline(always)] pub fn $n(x: $t) -> $t { unsafe { $f(x) } } )* } }
safe1!(floorf ref_floorf f32, ceilf ref_ceilf f32, roundf ref_roundf f32, truncf ref_truncf f32,
    sin ref_sin f64, cos ref_cos f64, tan ref_tan f64, atan ref_atan f64, asin ref_asin f64, acos ref_acos f64,
    exp ref_exp f64, ln ref_ln f64, sqrt ref_sqrt f64, cosh ref_cosh f64);
pub fn atan2(y: f64, x: f64) -> f64 {
    unsafe { ref_atan2(y, x) }
}
pub fn pow(y: f64, x: f64) -> f64 {
    unsafe { ref_pow(y, x) }
}

/// r is the crate's atan2 of arguments that differ from y and x by at most ey and ex
/// (the verifier looks at the call; the replay program checks what follows for the value)
pub fn of_atan2(r: f32, y: f64, ey: f64, x: f64, ex: f64) -> bool {
    unsafe { ref_of_atan2(r, y, ey, x, ex) }
}
/// the same for asin
pub fn of_asin(r: f32, x: f64, e: f64) -> bool {
    unsafe { ref_of_asin(r, x, e) }
}
