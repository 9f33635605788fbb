//! Accuracy contracts: C05 to C15.
use crate::exact::nan;
use crate::refs;
use crate::{ens, req, vcs};
use micromath::{F32Ext, F32};

const PI: f64 = 3.141592653589793;

#[inline(always)]
fn near(a: f32, b: f64, e: f64) -> bool {
    let d = a as f64 - b;
    (d <= e) & (d >= -e)
}
#[inline(always)]
fn within(a: f32, lo: f64, hi: f64) -> bool {
    (a as f64 >= lo) & (a as f64 <= hi)
}
/// relative error at most e of a positive value
#[inline(always)]
fn rel(a: f32, b: f64, e: f64) -> bool {
    let d = a as f64 - b;
    (d <= e * b) & (d >= -e * b)
}
#[inline(always)]
fn same(a: f32, b: f32) -> bool {
    (nan(a) & nan(b)) | (a.to_bits() == b.to_bits())
}
#[inline(always)]
fn neg(x: f32) -> bool {
    x.to_bits() >> 31 == 1
}
#[inline(always)]
fn abs(x: f32) -> f32 {
    f32::from_bits(x.to_bits() & 0x7fff_ffff)
}

vcs! {
fn vc__C05__cos(x: f32) {
    req!((x >= -8000.0) & (x <= 8000.0));
    ens!(0, near(F32(x).cos().0, refs::cos(x as f64), 0.002));
}
fn vc__C05__sin(x: f32) {
    req!((x >= -8000.0) & (x <= 8000.0));
    ens!(0, near(F32(x).sin().0, refs::sin(x as f64), 0.002));
}
fn vc__C05__sin_cos(x: f32) {
    let (s, c) = F32(x).sin_cos();
    ens!(0, same(s.0, F32(x).sin().0));
    ens!(1, same(c.0, F32(x).cos().0));
}
fn vc__C06__tan(x: f32) {
    req!((x >= -1000.0) & (x <= 1000.0));
    let t = refs::tan(x as f64);
    req!((t >= -20.0) & (t <= 20.0));
    let r = F32(x).tan().0;
    ens!(0, near(r, t, 0.6));
    ens!(1, !((t >= -1.0) & (t <= 1.0)) | near(r, t, 0.006));
}
fn vc__C07__atan(x: f32) {
    req!(!nan(x));
    let r = F32(x).atan().0;
    ens!(0, near(r, refs::atan(x as f64), 0.00285));
    ens!(1, neg(r) == neg(x));
}
fn vc__C07__atan_norm(x: f32) {
    req!(!nan(x));
    let r = F32(x).atan_norm().0;
    ens!(0, near(r, refs::atan(x as f64) / (PI / 2.0), 0.00182));
    ens!(1, within(r, -1.0, 1.0));
    ens!(2, neg(r) == neg(x));
}
fn vc__C09__asin(x: f32) {
    req!((x >= -1.0) & (x <= 1.0));
    let r = F32(x).asin().0;
    ens!(0, near(r, refs::asin(x as f64), 0.02));
    ens!(1, within(r, -PI / 2.0 - 0.001, PI / 2.0 + 0.001));
}
fn vc__C09__acos(x: f32) {
    req!((x >= -1.0) & (x <= 1.0));
    let r = F32Ext::acos(x);
    ens!(0, near(r, refs::acos(x as f64), 0.03));
    ens!(1, within(r, -0.001, PI + 0.001));
}
fn vc__C09__domain(x: f32) {
    req!(!((x >= -1.0) & (x <= 1.0)));
    ens!(0, nan(F32(x).asin().0));
    ens!(1, nan(F32Ext::acos(x)));
}
fn vc__C10__exp(x: f32) {
    req!((x >= -87.0) & (x <= 88.7));
    let r = F32(x).exp().0;
    ens!(0, rel(r, refs::exp(x as f64), 0.0025));
    ens!(1, r > 0.0);
}
fn vc__C10__exp_ends(x: f32) {
    let r = F32(x).exp().0;
    ens!(0, !(x < -87.0) | within(r, 0.0, 2e-38));
    ens!(1, !(x > 88.8) | (r == f32::INFINITY));
    ens!(2, !((x > 88.7) & (x <= 88.8)) | (r == f32::INFINITY) | rel(r, refs::exp(x as f64), 0.0025));
    ens!(3, !(x == 0.0) | (r == 1.0));
    ens!(4, !nan(x) | nan(r));
}
fn vc__C10__cosh(x: f32) {
    req!((x >= 0.0) & (x <= 6.2831855));
    let r = F32(x).cosh().0;
    let t = refs::cosh(x as f64);
    ens!(0, !(x as f64 <= PI) | near(r, t, 0.003));
    ens!(1, near(r, t, 0.1));
}
fn vc__C11__ln(x: f32) {
    req!((x >= f32::MIN_POSITIVE) & (x < f32::INFINITY));
    let t = refs::ln(x as f64);
    ens!(0, near(F32(x).ln().0, t, 0.0001));
}
fn vc__C11__log2(x: f32) {
    req!((x >= f32::MIN_POSITIVE) & (x < f32::INFINITY));
    let t = refs::ln(x as f64);
    ens!(0, near(F32(x).log2().0, t * 1.4426950408889634, 0.00016));
}
fn vc__C11__log10(x: f32) {
    req!((x >= f32::MIN_POSITIVE) & (x < f32::INFINITY));
    let t = refs::ln(x as f64);
    ens!(0, near(F32(x).log10().0, t * 0.4342944819032518, 0.00005));
}
fn vc__C11__log(x: f32, b: f32) {
    req!((x >= 1e-30) & (x <= 1e30));
    req!(((b >= 1.5) & (b <= 1e6)) | ((b >= 1e-6) & (b <= 0.6)));
    let lx = refs::ln(x as f64);
    let lb = refs::ln(b as f64);
    let r = F32(x).log(F32(b)).0 as f64;
    // |r - lx/lb| <= 0.0002 (1 + |lx/lb|) / |lb|, multiplied by |lb|^2
    let ab = if lb < 0.0 { -lb } else { lb };
    let ax = if lx < 0.0 { -lx } else { lx };
    let m = 0.0002 * (ab + ax);
    let e = (r * lb - lx) * ab;
    ens!(0, (e <= m) & (e >= -m));
}
fn vc__C11__special(x: f32) {
    let (a, b, c) = (F32(x).ln().0, F32(x).log2().0, F32(x).log10().0);
    ens!(0, !(x == 1.0) | ((a == 0.0) & (b == 0.0) & (c == 0.0)));
    ens!(1, !(x == f32::INFINITY) | ((a == x) & (b == x) & (c == x)));
    ens!(2, !(nan(x) | (x < 0.0)) | (nan(a) & nan(b) & nan(c)));
}
fn vc__C12__sqrt(x: f32) {
    req!((x >= f32::MIN_POSITIVE) & (x < f32::INFINITY));
    let r = F32(x).sqrt().0 as f64;
    let t = refs::sqrt(x as f64);
    ens!(0, (r >= 0.999999 * t) & (r <= 1.0608 * t));
}
fn vc__C12__invsqrt(x: f32) {
    req!((x >= f32::MIN_POSITIVE) & (x < f32::INFINITY));
    let r = F32(x).invsqrt().0 as f64;
    let t = refs::sqrt(x as f64);
    ens!(0, (r * t >= 0.965) & (r * t <= 1.035));
}
fn vc__C12__domain(x: f32) {
    ens!(0, !((x < 0.0) | nan(x)) | (nan(F32(x).sqrt().0) & nan(F32(x).invsqrt().0)));
    ens!(1, !(x == 0.0) | (abs(F32(x).sqrt().0) <= 1e-18));
}
fn vc__C12__hypot(x: f32, y: f32) {
    let m = if abs(x) < abs(y) { abs(y) } else { abs(x) };
    req!((abs(x) <= 1e19) & (abs(y) <= 1e19) & (m >= 1e-18));
    let r = F32(x).hypot(F32(y)).0 as f64;
    let (a, b) = (x as f64, y as f64);
    let t = refs::sqrt(a * a + b * b);
    ens!(0, (r >= 0.9999 * t) & (r <= 1.0612 * t));
}
fn vc__C13__inv(x: f32) {
    req!((abs(x) >= 1.2e-38) & (abs(x) <= 8.5e37));
    let p = F32(x).inv().0 as f64 * x as f64;
    ens!(0, (p >= 1.0) & (p <= 1.1251));
}
fn vc__C13__recip(x: f32) {
    req!((abs(x) >= 1.2e-38) & (abs(x) <= 8.5e37));
    let p = F32(x).recip().0 as f64 * x as f64;
    ens!(0, (p >= 0.999975) & (p <= 1.000025));
}
fn vc__C13__large(x: f32) {
    req!(abs(x) > 8.5e37);
    let a = abs(F32(x).inv().0);
    ens!(0, (a >= 0.0) & (a <= 1.3e-38));
    ens!(1, near(F32(x).recip().0, 1.0 / x as f64, 1e-42));
}
fn vc__C13__nan(x: f32) {
    req!(nan(x));
    ens!(0, nan(F32(x).inv().0));
    ens!(1, nan(F32(x).recip().0));
}
fn vc__C08__atan2(y: f32, x: f32) {
    req!((abs(y) < f32::INFINITY) & (abs(x) < f32::INFINITY));
    let m = if abs(x) < abs(y) { abs(y) } else { abs(x) };
    req!(m >= 1e-37);
    let r = F32(y).atan2(F32(x)).0;
    ens!(0, within(r, -3.1416, 3.1416));
    let t = refs::atan2(y as f64, x as f64);
    ens!(1, near(r, t, 0.003) | near(r, t + 2.0 * PI, 0.003) | near(r, t - 2.0 * PI, 0.003));
}
fn vc__C08__atan2_norm(y: f32, x: f32) {
    req!((abs(y) < f32::INFINITY) & (abs(x) < f32::INFINITY));
    let m = if abs(x) < abs(y) { abs(y) } else { abs(x) };
    req!(m >= 1e-37);
    let r = F32Ext::atan2_norm(y, x);
    ens!(0, (r >= 0.0) & (r < 4.0));
    let t = refs::atan2(y as f64, x as f64) / (PI / 2.0);
    ens!(1, near(r, t, 0.0019) | near(r, t + 4.0, 0.0019) | near(r, t - 4.0, 0.0019));
}
fn vc__C08__zero(y: f32, x: f32) {
    req!((y == 0.0) & (x == 0.0));
    ens!(0, F32(y).atan2(F32(x)).0 == 0.0);
    ens!(1, F32Ext::atan2_norm(y, x) == 0.0);
}
fn vc__C08__small(y: f32, x: f32) {
    req!((abs(y) < f32::INFINITY) & (abs(x) < f32::INFINITY));
    let r = F32(y).atan2(F32(x)).0;
    ens!(0, within(r, -3.1416, 3.1416));
    let n = F32Ext::atan2_norm(y, x);
    ens!(1, (n >= 0.0) & (n < 4.0));
}
fn vc__C15__powf(x: f32, n: f32) {
    req!((x >= 1e-6) & (x <= 1e6) & (n >= -6.0) & (n <= 6.0));
    let r = F32(x).powf(F32(n)).0;
    ens!(0, rel(r, refs::pow(x as f64, n as f64), 0.004));
}
fn vc__C14__powi(x: f32, n: i32) {
    req!((n >= -64) & (n <= 64) & !nan(x));
    let t = refs::pow(abs(x) as f64, n as f64);
    let r = F32(x).powi(n).0;
    let s = neg(x) & (n & 1 == 1);
    let p = if s { -r } else { r };
    let k = if n < 0 { -n } else { n };
    ens!(0, !((t >= 1e-36) & (t <= 1e36)) | rel(p, t, (k + 2) as f64 * 1.2e-7));
    ens!(1, !(t > 1e39) | (p == f32::INFINITY));
    ens!(2, !(t < 1e-46) | (r == 0.0));
}
fn vc__C14__nan(x: f32, n: i32) {
    let r = F32(x).powi(n).0;
    ens!(0, (n != 0) | (r == 1.0));
    ens!(1, (n == 0) | !nan(x) | nan(r));
}
fn vc__C14__sign(x: f32, n: i32) {
    req!(!neg(x));
    ens!(0, !(F32(x).powi(n).0 < 0.0));
}
fn vc__C14__even(x: f32, m: i32) {
    ens!(0, !(F32(x).powi(m.wrapping_shl(1)).0 < 0.0));
}
fn vc__C15__negative(x: f32, n: f32) {
    req!(x < 0.0);
    let p = F32(x).powf(F32(n)).0;
    let q = F32(-x).powf(F32(n)).0;
    let t = refs::truncf(n);
    let h = n * 0.5;
    let integer = (abs(n) < f32::INFINITY) & (t == n);
    let even = integer & (refs::truncf(h) == h);
    ens!(0, !((abs(n) < f32::INFINITY) & !integer) | nan(p));
    ens!(1, !even | same(p, q));
    ens!(2, !(integer & !even) | same(p, -q));
}
fn vc__C15__zero_power(x: f32, n: f32) {
    req!((x > 0.0) & (x < f32::INFINITY) & (n == 0.0));
    ens!(0, F32(x).powf(F32(n)).0 == 1.0);
}
fn vc__C15__nan(x: f32, n: f32) {
    req!(nan(x));
    ens!(0, nan(F32(x).powf(F32(n)).0));
}
}
