//! Contracts that hold bit for bit: C01 to C04, C16 to C21, C33.
use crate::refs::*;
use crate::{ens, req, vcs};
use core::cmp::Ordering;
use micromath::{F32Ext, F32};

#[inline(always)]
pub fn nan(x: f32) -> bool {
    x != x
}
#[inline(always)]
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (nan(a) & nan(b))
}
#[inline(always)]
fn sign(x: f32) -> bool {
    x.to_bits() >> 31 == 1
}
#[inline(always)]
fn finite(x: f32) -> bool {
    x.to_bits() & 0x7fff_ffff < 0x7f80_0000
}
const INF: f32 = f32::INFINITY;

vcs! {
fn vc__C01__abs(x: f32) {
    let e = x.to_bits() & 0x7fff_ffff;
    ens!(0, F32(x).abs().0.to_bits() == e);
    ens!(1, F32Ext::abs(x).to_bits() == e);
}
fn vc__C01__copysign(x: f32, s: f32) {
    let e = (x.to_bits() & 0x7fff_ffff) | (s.to_bits() & 0x8000_0000);
    ens!(0, F32(x).copysign(F32(s)).0.to_bits() == e);
    ens!(1, F32Ext::copysign(x, s).to_bits() == e);
}
fn vc__C01__signum(x: f32) {
    let (r, q) = (F32(x).signum().0, F32Ext::signum(x));
    let one = 1.0f32.to_bits() | (x.to_bits() & 0x8000_0000);
    if nan(x) {
        ens!(0, nan(r));
        ens!(1, nan(q));
    } else {
        ens!(2, r.to_bits() == one);
        ens!(3, q.to_bits() == one);
    }
}

fn vc__C02__floor(x: f32) {
    let r = F32(x).floor().0;
    if nan(x) {
        ens!(0, nan(r));
    } else {
        ens!(1, r == floorf(x));
    }
}
fn vc__C02__ceil(x: f32) {
    let r = F32(x).ceil().0;
    if nan(x) {
        ens!(0, nan(r));
    } else {
        ens!(1, r == ceilf(x));
    }
}
fn vc__C02__ext(x: f32) {
    let (r, c) = (F32Ext::floor(x), F32Ext::ceil(x));
    if nan(x) {
        ens!(0, nan(r));
        ens!(1, nan(c));
    } else {
        ens!(2, r == floorf(x));
        ens!(3, c == ceilf(x));
    }
}
fn vc__C03__round(x: f32) {
    let r = F32(x).round().0;
    if nan(x) {
        ens!(0, nan(r));
    } else {
        ens!(1, r == roundf(x));
    }
}
fn vc__C03__ext(x: f32) {
    let r = F32Ext::round(x);
    if nan(x) {
        ens!(0, nan(r));
    } else {
        ens!(1, r == roundf(x));
    }
}
fn vc__C04__trunc(x: f32) {
    let t = F32(x).trunc().0;
    if nan(x) {
        ens!(0, nan(t));
    } else {
        ens!(1, t == truncf(x));
        ens!(2, sign(t) == sign(x));
    }
}
fn vc__C04__fract(x: f32) {
    let f = F32(x).fract().0;
    if nan(x) {
        ens!(0, nan(f));
    } else if finite(x) {
        ens!(1, f == x - truncf(x));
        ens!(2, sign(f) == sign(x));
        ens!(3, truncf(x) + f == x);
    } else {
        ens!(4, f == 0.0);
        ens!(5, sign(f) == sign(x));
    }
}
fn vc__C04__ext(x: f32) {
    let (t, f) = (F32Ext::trunc(x), F32Ext::fract(x));
    if nan(x) {
        ens!(0, nan(t));
        ens!(1, nan(f));
    } else {
        ens!(2, t == truncf(x));
        ens!(3, sign(t) == sign(x));
        ens!(4, sign(f) == sign(x));
        if finite(x) {
            ens!(5, f == x - truncf(x));
            ens!(6, t + f == x);
        } else {
            ens!(7, f == 0.0);
        }
    }
}

fn vc__C16__rem_euclid(x: f32, y: f32) {
    req!(finite(x) & finite(y) & (y != 0.0));
    let r = F32(x).rem_euclid(F32(y)).0;
    let m = x % y;
    ens!(0, (r >= 0.0) & (r <= if y < 0.0 { -y } else { y }));
    if m >= 0.0 {
        ens!(1, r == m);
    } else {
        ens!(2, r == m + if y < 0.0 { -y } else { y });
    }
    ens!(3, same(F32Ext::rem_euclid(x, y), r));
}
fn vc__C16__div_euclid(x: f32, y: f32) {
    req!(finite(x) & finite(y) & (y != 0.0));
    let d = F32(x).div_euclid(F32(y)).0;
    let m = x % y;
    let q = truncf(x / y);
    if m >= 0.0 {
        ens!(0, d == q);
    } else if y > 0.0 {
        ens!(1, d == q - 1.0);
    } else {
        ens!(2, d == q + 1.0);
    }
    ens!(3, same(F32Ext::div_euclid(x, y), d));
}

fn vc__C17__one(x: f32) {
    req!(nan(x));
    ens!(0, nan(F32Ext::abs(x)));
    ens!(1, nan(F32Ext::acos(x)));
    ens!(2, nan(F32Ext::asin(x)));
    ens!(3, nan(F32Ext::atan(x)));
    ens!(4, nan(F32Ext::atan_norm(x)));
    ens!(5, nan(F32Ext::ceil(x)));
    ens!(6, nan(F32Ext::cos(x)));
    ens!(7, nan(F32Ext::exp(x)));
    ens!(8, nan(F32Ext::floor(x)));
    ens!(9, nan(F32Ext::fract(x)));
    ens!(10, nan(F32Ext::inv(x)));
    ens!(11, nan(F32Ext::invsqrt(x)));
    ens!(12, nan(F32Ext::ln(x)));
    ens!(13, nan(F32Ext::log2(x)));
    ens!(14, nan(F32Ext::log10(x)));
    ens!(15, nan(F32Ext::round(x)));
    ens!(16, nan(F32Ext::signum(x)));
    ens!(17, nan(F32Ext::sin(x)));
    ens!(18, nan(F32Ext::sqrt(x)));
    ens!(19, nan(F32Ext::tan(x)));
    ens!(20, nan(F32Ext::trunc(x)));
    ens!(21, nan(F32(x).cosh().0));
    ens!(22, nan(F32Ext::recip(x)));
}
fn vc__C17__wrapper(x: f32) {
    req!(nan(x));
    let x = F32(x);
    ens!(0, nan(x.abs().0));
    ens!(2, nan(x.asin().0));
    ens!(3, nan(x.atan().0));
    ens!(4, nan(x.atan_norm().0));
    ens!(5, nan(x.ceil().0));
    ens!(6, nan(x.cos().0));
    ens!(7, nan(x.exp().0));
    ens!(8, nan(x.floor().0));
    ens!(9, nan(x.fract().0));
    ens!(10, nan(x.inv().0));
    ens!(11, nan(x.invsqrt().0));
    ens!(12, nan(x.ln().0));
    ens!(13, nan(x.log2().0));
    ens!(14, nan(x.log10().0));
    ens!(15, nan(x.round().0));
    ens!(16, nan(x.signum().0));
    ens!(17, nan(x.sin().0));
    ens!(18, nan(x.sqrt().0));
    ens!(19, nan(x.tan().0));
    ens!(20, nan(x.trunc().0));
    ens!(22, nan(x.recip().0));
}
fn vc__C17__two(x: f32, y: f32) {
    req!(nan(x) | nan(y));
    ens!(0, nan(F32Ext::hypot(x, y)));
    ens!(1, nan(F32Ext::atan2(x, y)));
    ens!(2, nan(F32Ext::div_euclid(x, y)));
    ens!(3, nan(F32Ext::rem_euclid(x, y)));
    ens!(4, nan(F32Ext::log(x, y)));
}
fn vc__C17__three(x: f32, y: f32, z: f32) {
    req!(nan(x) | nan(y) | nan(z));
    ens!(0, nan(F32Ext::mul_add(x, y, z)));
    ens!(1, nan(F32(x).mul_add(F32(y), F32(z)).0));
}

fn vc__C18__one(x: f32) {
    let _ = F32Ext::abs(x);
    let _ = F32Ext::acos(x);
    let _ = F32Ext::asin(x);
    let _ = F32Ext::atan(x);
    let _ = F32Ext::atan_norm(x);
    let _ = F32Ext::ceil(x);
    let _ = F32Ext::cos(x);
    let _ = F32Ext::exp(x);
    let _ = F32Ext::floor(x);
    let _ = F32Ext::fract(x);
    let _ = F32Ext::inv(x);
    let _ = F32Ext::invsqrt(x);
    let _ = F32Ext::ln(x);
    let _ = F32Ext::log2(x);
    let _ = F32Ext::log10(x);
    let _ = F32Ext::recip(x);
    let _ = F32Ext::round(x);
    let _ = F32Ext::signum(x);
    let _ = F32Ext::sin(x);
    let _ = F32Ext::sin_cos(x);
    let _ = F32Ext::sqrt(x);
    let _ = F32Ext::tan(x);
    let _ = F32Ext::trunc(x);
}
fn vc__C18__wrapper(x: f32) {
    let x = F32(x);
    let _ = x.abs();
    let _ = x.asin();
    let _ = x.atan();
    let _ = x.atan_norm();
    let _ = x.ceil();
    let _ = x.cos();
    let _ = x.cosh();
    let _ = x.exp();
    let _ = x.floor();
    let _ = x.fract();
    let _ = x.inv();
    let _ = x.invsqrt();
    let _ = x.ln();
    let _ = x.log2();
    let _ = x.log10();
    let _ = x.recip();
    let _ = x.round();
    let _ = x.signum();
    let _ = x.sin();
    let _ = x.sin_cos();
    let _ = x.sqrt();
    let _ = x.tan();
    let _ = x.trunc();
}
fn vc__C18__two(x: f32, y: f32) {
    let _ = F32Ext::atan2(x, y);
    let _ = F32Ext::atan2_norm(x, y);
    let _ = F32Ext::copysign(x, y);
    let _ = F32Ext::div_euclid(x, y);
    let _ = F32Ext::hypot(x, y);
    let _ = F32Ext::log(x, y);
    let _ = F32Ext::powf(x, y);
    let _ = F32Ext::rem_euclid(x, y);
    let (x, y) = (F32(x), F32(y));
    let _ = x.atan2(y);
    let _ = x.copysign(y);
    let _ = x.div_euclid(y);
    let _ = x.hypot(y);
    let _ = x.log(y);
    let _ = x.powf(y);
    let _ = x.rem_euclid(y);
}
fn vc__C18__three(x: f32, y: f32, z: f32) {
    let _ = F32Ext::mul_add(x, y, z);
    let _ = F32(x).mul_add(F32(y), F32(z));
}
fn vc__C18__powi(x: f32, n: i32) {
    let _ = F32Ext::powi(x, n);
    let _ = F32(x).powi(n);
}

fn vc__C19__ops(x: f32, y: f32) {
    let (a, b) = (F32(x), F32(y));
    ens!(0, same((a + b).0, x + y));
    ens!(1, same((a - b).0, x - y));
    ens!(2, same((a * b).0, x * y));
    ens!(3, same((a / b).0, x / y));
    ens!(4, same((a % b).0, x % y));
    ens!(5, same((a + y).0, x + y));
    ens!(6, same((a - y).0, x - y));
    ens!(7, same((a * y).0, x * y));
    ens!(8, same((a / y).0, x / y));
    ens!(9, same((a % y).0, x % y));
    ens!(10, same((x + b).0, x + y));
    ens!(11, same((x - b).0, x - y));
    ens!(12, same((x * b).0, x * y));
    ens!(13, same((x / b).0, x / y));
    ens!(14, same((x % b).0, x % y));
    ens!(15, same((-a).0, -x));
}
fn vc__C19__assign(x: f32, y: f32) {
    let b = F32(y);
    let mut t = F32(x); t += b; ens!(0, same(t.0, x + y));
    let mut t = F32(x); t -= b; ens!(1, same(t.0, x - y));
    let mut t = F32(x); t *= b; ens!(2, same(t.0, x * y));
    let mut t = F32(x); t /= b; ens!(3, same(t.0, x / y));
    let mut t = F32(x); t %= b; ens!(4, same(t.0, x % y));
    let mut t = F32(x); t += y; ens!(5, same(t.0, x + y));
    let mut t = F32(x); t -= y; ens!(6, same(t.0, x - y));
    let mut t = F32(x); t *= y; ens!(7, same(t.0, x * y));
    let mut t = F32(x); t /= y; ens!(8, same(t.0, x / y));
    let mut t = F32(x); t %= y; ens!(9, same(t.0, x % y));
    let mut t = x; t += b; ens!(10, same(t, x + y));
    let mut t = x; t -= b; ens!(11, same(t, x - y));
    let mut t = x; t *= b; ens!(12, same(t, x * y));
    let mut t = x; t /= b; ens!(13, same(t, x / y));
}
fn vc__C19__mul_add(x: f32, a: f32, b: f32) {
    ens!(0, same(F32(x).mul_add(F32(a), F32(b)).0, x * a + b));
    ens!(1, same(F32Ext::mul_add(x, a, b), x * a + b));
}

fn vc__C20__one(x: f32) {
    let w = F32(x);
    ens!(0, same(F32Ext::abs(x), w.abs().0));
    ens!(1, same(F32Ext::asin(x), w.asin().0));
    ens!(2, same(F32Ext::atan(x), w.atan().0));
    ens!(3, same(F32Ext::atan_norm(x), w.atan_norm().0));
    ens!(4, same(F32Ext::ceil(x), w.ceil().0));
    ens!(5, same(F32Ext::cos(x), w.cos().0));
    ens!(6, same(F32Ext::exp(x), w.exp().0));
    ens!(7, same(F32Ext::floor(x), w.floor().0));
    ens!(8, same(F32Ext::fract(x), w.fract().0));
    ens!(9, same(F32Ext::inv(x), w.inv().0));
    ens!(10, same(F32Ext::invsqrt(x), w.invsqrt().0));
    ens!(11, same(F32Ext::ln(x), w.ln().0));
    ens!(12, same(F32Ext::log2(x), w.log2().0));
    ens!(13, same(F32Ext::log10(x), w.log10().0));
    ens!(14, same(F32Ext::round(x), w.round().0));
    ens!(15, same(F32Ext::signum(x), w.signum().0));
    ens!(16, same(F32Ext::sin(x), w.sin().0));
    ens!(17, same(F32Ext::sin_cos(x).0, w.sin_cos().0.0));
    ens!(18, same(F32Ext::sin_cos(x).1, w.sin_cos().1.0));
    ens!(19, same(F32Ext::sqrt(x), w.sqrt().0));
    ens!(20, same(F32Ext::tan(x), w.tan().0));
    ens!(21, same(F32Ext::trunc(x), w.trunc().0));
    ens!(22, same(F32Ext::recip(x), w.recip().0));
}
fn vc__C20__two(x: f32, y: f32) {
    let (w, v) = (F32(x), F32(y));
    ens!(0, same(F32Ext::atan2(x, y), w.atan2(v).0));
    ens!(1, same(F32Ext::copysign(x, y), w.copysign(v).0));
    ens!(2, same(F32Ext::div_euclid(x, y), w.div_euclid(v).0));
    ens!(3, same(F32Ext::hypot(x, y), w.hypot(v).0));
    ens!(4, same(F32Ext::log(x, y), w.log(v).0));
    ens!(5, same(F32Ext::powf(x, y), w.powf(v).0));
    ens!(6, same(F32Ext::rem_euclid(x, y), w.rem_euclid(v).0));
}
fn vc__C20__three(x: f32, y: f32, z: f32) {
    ens!(0, same(F32Ext::mul_add(x, y, z), F32(x).mul_add(F32(y), F32(z)).0));
}
fn vc__C20__powi(x: f32, n: i32) {
    ens!(0, same(F32Ext::powi(x, n), F32(x).powi(n).0));
}

fn vc__C21__compare(x: f32, y: f32) {
    let (a, b) = (F32(x), F32(y));
    ens!(0, (a == b) == (x == y));
    ens!(1, (a != b) == (x != y));
    ens!(2, (a < b) == (x < y));
    ens!(3, (a <= b) == (x <= y));
    ens!(4, (a > b) == (x > y));
    ens!(5, (a >= b) == (x >= y));
    ens!(6, (a == y) == (x == y));
    ens!(7, (a != y) == (x != y));
    ens!(8, (a < y) == (x < y));
    ens!(9, (a <= y) == (x <= y));
    ens!(10, (a > y) == (x > y));
    ens!(11, (a >= y) == (x >= y));
    ens!(12, (x == b) == (x == y));
    ens!(13, (x != b) == (x != y));
    ens!(14, (x < b) == (x < y));
    ens!(15, (x <= b) == (x <= y));
    ens!(16, (x > b) == (x > y));
    ens!(17, (x >= b) == (x >= y));
}
fn vc__C21__partial_cmp(x: f32, y: f32) {
    let (a, b) = (F32(x), F32(y));
    let e: i8 = code(if x < y { Some(Ordering::Less) } else if x > y { Some(Ordering::Greater) } else if x == y { Some(Ordering::Equal) } else { None });
    ens!(0, code(a.partial_cmp(&b)) == e);
    ens!(1, code(a.partial_cmp(&y)) == e);
    ens!(2, code(x.partial_cmp(&b)) == e);
}
fn vc__C21__convert(x: f32, u: u32) {
    ens!(0, F32::from(x).0.to_bits() == x.to_bits());
    let y: f32 = F32(x).into();
    ens!(1, y.to_bits() == x.to_bits());
    ens!(2, F32::from_bits(u).0.to_bits() == u);
    ens!(3, F32(x).to_bits() == x.to_bits());
    ens!(4, F32::default().0.to_bits() == 0);
}
fn vc__C21__from_ints(a: i8, b: u8, c: i16, d: u16) {
    ens!(0, F32::from(a).0 == a as f32);
    ens!(1, F32::from(b).0 == b as f32);
    ens!(2, F32::from(c).0 == c as f32);
    ens!(3, F32::from(d).0 == d as f32);
}
fn vc__C21__classify(x: f32) {
    let m = x.to_bits() & 0x7fff_ffff;
    ens!(0, F32(x).is_nan() == (m > 0x7f80_0000));
    ens!(1, F32(x).is_infinite() == (m == 0x7f80_0000));
    ens!(2, F32(x).is_finite() == (m < 0x7f80_0000));
    ens!(3, F32(x).is_sign_positive() == !sign(x));
    ens!(4, F32(x).is_sign_negative() == sign(x));
}
fn vc__C21__folds(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, g: f32, h: f32) {
    let xs = [F32(a), F32(b), F32(c), F32(d), F32(e), F32(f), F32(g), F32(h)];
    // the sign of the zero a sum starts from is not specified
    let (mut s, mut z, mut p) = (0.0f32, -0.0f32, 1.0f32);
    let mut n = 0;
    while n <= 8 {
        let t: F32 = xs[..n].iter().copied().sum();
        ens!(0, same(t.0, s) | same(t.0, z));
        let t: F32 = xs[..n].iter().copied().product();
        ens!(1, same(t.0, p));
        if n < 8 {
            s += xs[n].0;
            z += xs[n].0;
            p *= xs[n].0;
        }
        n += 1;
    }
}
fn vc__C21__constants() {
    ens!(0, F32::ZERO.0.to_bits() == 0);
    ens!(1, F32::ONE.0 == 1.0);
    ens!(2, F32::RADIX == f32::RADIX);
    ens!(3, F32::MANTISSA_DIGITS == f32::MANTISSA_DIGITS);
    ens!(4, F32::DIGITS == f32::DIGITS);
    ens!(5, F32::EPSILON.0 == f32::EPSILON);
    ens!(6, F32::MIN.0 == f32::MIN);
    ens!(7, F32::MIN_POSITIVE.0 == f32::MIN_POSITIVE);
    ens!(8, F32::MAX.0 == f32::MAX);
    ens!(9, F32::MIN_EXP == f32::MIN_EXP);
    ens!(10, F32::MAX_EXP == f32::MAX_EXP);
    ens!(11, F32::MIN_10_EXP == f32::MIN_10_EXP);
    ens!(12, F32::MAX_10_EXP == f32::MAX_10_EXP);
    ens!(13, nan(F32::NAN.0));
    ens!(14, F32::INFINITY.0 == INF);
    ens!(15, F32::NEG_INFINITY.0 == -INF);
}

fn vc__C33__traits(x: f32) {
    use num_traits::{Inv, One, Zero};
    ens!(0, <F32 as Zero>::zero().0.to_bits() == 0);
    ens!(1, <F32 as One>::one().0 == 1.0);
    ens!(2, Zero::is_zero(&F32(x)) == (x == 0.0));
    ens!(3, One::is_one(&F32(x)) == (x == 1.0));
    ens!(4, same(Inv::inv(F32(x)).0, F32(x).inv().0));
    let mut z = F32(x);
    z.set_zero();
    ens!(5, z.0.to_bits() == 0);
    let mut o = F32(x);
    o.set_one();
    ens!(6, o.0 == 1.0);
}
}

#[inline(always)]
fn code(o: Option<Ordering>) -> i8 {
    match o {
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
        None => 4,
    }
}
