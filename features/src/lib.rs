//! One probe per public function of micromath, available under the features the function needs.
//! The verifier runs a probe in the builds of two feature sets and compares the results for all
//! arguments; `TABLE` is for executing them.
#![no_std]
#![allow(non_snake_case, non_upper_case_globals, clippy::all)]
use core::fmt::{self, Display, Formatter, LowerExp, UpperExp};
use core::str::FromStr;
use micromath::{F32Ext, F32};

pub struct Entry {
    pub name: &'static str,
    pub kinds: &'static [&'static str],
    pub f: fn(&[u32]) -> u64,
}
pub trait Arg: Sized {
    fn get(v: &[u32], i: &mut usize) -> Self;
}
/// what a probe observes of a result
pub trait Out {
    fn out(self) -> u64;
}
macro_rules! arg {
    ($($t:ty => $f:expr),*) => {$(
        impl Arg for $t {
            fn get(v: &[u32], i: &mut usize) -> Self { let x = v[*i]; *i += 1; let f: fn(u32) -> $t = $f; f(x) }
        }
    )*};
}
arg!(f32 => |x| f32::from_bits(x), u32 => |x| x, i32 => |x| x as i32, u16 => |x| x as u16, i16 => |x| x as i16,
     u8 => |x| x as u8, i8 => |x| x as i8);
macro_rules! out {
    ($($t:ty),*) => {$( impl Out for $t { fn out(self) -> u64 { self as u64 } } )*};
}
out!(u8, i8, u16, i16, u32, i32, u64, bool);
impl Out for f32 {
    // every NaN counts as the same result
    fn out(self) -> u64 { if self != self { 0x7fc0_0000 } else { self.to_bits() as u64 } }
}
impl Out for F32 {
    fn out(self) -> u64 { f32::from(self).out() }
}
impl Out for Option<core::cmp::Ordering> {
    fn out(self) -> u64 {
        match self {
            None => 3,
            Some(core::cmp::Ordering::Less) => 0,
            Some(core::cmp::Ordering::Equal) => 1,
            Some(core::cmp::Ordering::Greater) => 2,
        }
    }
}

macro_rules! probes {
    ($table:ident: $(fn $name:ident($($a:ident : $t:ty),* $(,)?) $body:block)*) => {
        $( #[no_mangle] pub fn $name($($a: $t),*) -> u64 { Out::out($body) } )*
        pub static $table: &[crate::Entry] = &[
            $(crate::Entry {
                name: stringify!($name),
                kinds: &[$(stringify!($t)),*],
                f: {
                    fn adapt(_v: &[u32]) -> u64 {
                        let mut _i = 0usize;
                        $(let $a: $t = <$t as crate::Arg>::get(_v, &mut _i);)*
                        $name($($a),*)
                    }
                    adapt
                },
            }),*
        ];
    };
}

#[allow(improper_ctypes)]
extern "C" {
    fn ref_format(value: *const (), f: *const ()) -> u64;
    fn ref_str(a: u32, b: u32) -> &'static str;
}
fn format<T>(x: &T, f: fn(&T, &mut Formatter<'_>) -> fmt::Result) -> u64 {
    unsafe { ref_format(x as *const T as *const (), f as *const ()) }
}
fn w(x: f32) -> F32 {
    F32::from(x)
}

probes! { BASE:
    fn probe__F32_abs(x: f32) { w(x).abs() }
    fn probe__F32_acos(x: f32) { F32Ext::acos(x) }
    fn probe__F32_asin(x: f32) { w(x).asin() }
    fn probe__F32_atan(x: f32) { w(x).atan() }
    fn probe__F32_atan_norm(x: f32) { w(x).atan_norm() }
    fn probe__F32_atan2(x: f32, y: f32) { w(x).atan2(w(y)) }
    fn probe__F32_atan2_norm(x: f32, y: f32) { F32Ext::atan2_norm(x, y) }
    fn probe__F32_ceil(x: f32) { w(x).ceil() }
    fn probe__F32_copysign(x: f32, y: f32) { w(x).copysign(w(y)) }
    fn probe__F32_cos(x: f32) { w(x).cos() }
    fn probe__F32_cosh(x: f32) { w(x).cosh() }
    fn probe__F32_div_euclid(x: f32, y: f32) { w(x).div_euclid(w(y)) }
    fn probe__F32_exp(x: f32) { w(x).exp() }
    fn probe__F32_floor(x: f32) { w(x).floor() }
    fn probe__F32_fract(x: f32) { w(x).fract() }
    fn probe__F32_hypot(x: f32, y: f32) { w(x).hypot(w(y)) }
    fn probe__F32_inv(x: f32) { w(x).inv() }
    fn probe__F32_invsqrt(x: f32) { w(x).invsqrt() }
    fn probe__F32_ln(x: f32) { w(x).ln() }
    fn probe__F32_log(x: f32, y: f32) { w(x).log(w(y)) }
    fn probe__F32_log2(x: f32) { w(x).log2() }
    fn probe__F32_log10(x: f32) { w(x).log10() }
    fn probe__F32_mul_add(x: f32, y: f32, z: f32) { w(x).mul_add(w(y), w(z)) }
    fn probe__F32_powf(x: f32, y: f32) { w(x).powf(w(y)) }
    fn probe__F32_powi(x: f32, n: i32) { w(x).powi(n) }
    fn probe__F32_recip(x: f32) { w(x).recip() }
    fn probe__F32_rem_euclid(x: f32, y: f32) { w(x).rem_euclid(w(y)) }
    fn probe__F32_round(x: f32) { w(x).round() }
    fn probe__F32_signum(x: f32) { w(x).signum() }
    fn probe__F32_sin(x: f32) { w(x).sin() }
    fn probe__F32_sin_cos_0(x: f32) { w(x).sin_cos().0 }
    fn probe__F32_sin_cos_1(x: f32) { w(x).sin_cos().1 }
    fn probe__F32_sqrt(x: f32) { w(x).sqrt() }
    fn probe__F32_tan(x: f32) { w(x).tan() }
    fn probe__F32_trunc(x: f32) { w(x).trunc() }
    fn probe__Ext_abs(x: f32) { F32Ext::abs(x) }
    fn probe__Ext_asin(x: f32) { F32Ext::asin(x) }
    fn probe__Ext_atan(x: f32) { F32Ext::atan(x) }
    fn probe__Ext_atan_norm(x: f32) { F32Ext::atan_norm(x) }
    fn probe__Ext_atan2(x: f32, y: f32) { F32Ext::atan2(x, y) }
    fn probe__Ext_ceil(x: f32) { F32Ext::ceil(x) }
    fn probe__Ext_copysign(x: f32, y: f32) { F32Ext::copysign(x, y) }
    fn probe__Ext_cos(x: f32) { F32Ext::cos(x) }
    fn probe__Ext_div_euclid(x: f32, y: f32) { F32Ext::div_euclid(x, y) }
    fn probe__Ext_exp(x: f32) { F32Ext::exp(x) }
    fn probe__Ext_floor(x: f32) { F32Ext::floor(x) }
    fn probe__Ext_fract(x: f32) { F32Ext::fract(x) }
    fn probe__Ext_hypot(x: f32, y: f32) { F32Ext::hypot(x, y) }
    fn probe__Ext_inv(x: f32) { F32Ext::inv(x) }
    fn probe__Ext_invsqrt(x: f32) { F32Ext::invsqrt(x) }
    fn probe__Ext_ln(x: f32) { F32Ext::ln(x) }
    fn probe__Ext_log(x: f32, y: f32) { F32Ext::log(x, y) }
    fn probe__Ext_log2(x: f32) { F32Ext::log2(x) }
    fn probe__Ext_log10(x: f32) { F32Ext::log10(x) }
    fn probe__Ext_mul_add(x: f32, y: f32, z: f32) { F32Ext::mul_add(x, y, z) }
    fn probe__Ext_powf(x: f32, y: f32) { F32Ext::powf(x, y) }
    fn probe__Ext_powi(x: f32, n: i32) { F32Ext::powi(x, n) }
    fn probe__Ext_recip(x: f32) { F32Ext::recip(x) }
    fn probe__Ext_rem_euclid(x: f32, y: f32) { F32Ext::rem_euclid(x, y) }
    fn probe__Ext_round(x: f32) { F32Ext::round(x) }
    fn probe__Ext_signum(x: f32) { F32Ext::signum(x) }
    fn probe__Ext_sin(x: f32) { F32Ext::sin(x) }
    fn probe__Ext_sin_cos_0(x: f32) { F32Ext::sin_cos(x).0 }
    fn probe__Ext_sin_cos_1(x: f32) { F32Ext::sin_cos(x).1 }
    fn probe__Ext_sqrt(x: f32) { F32Ext::sqrt(x) }
    fn probe__Ext_tan(x: f32) { F32Ext::tan(x) }
    fn probe__Ext_trunc(x: f32) { F32Ext::trunc(x) }
    fn probe__F32_is_nan(x: f32) { w(x).is_nan() }
    fn probe__F32_is_infinite(x: f32) { w(x).is_infinite() }
    fn probe__F32_is_finite(x: f32) { w(x).is_finite() }
    fn probe__F32_is_sign_positive(x: f32) { w(x).is_sign_positive() }
    fn probe__F32_is_sign_negative(x: f32) { w(x).is_sign_negative() }
    fn probe__F32_to_bits(x: f32) { w(x).to_bits() }
    fn probe__F32_from_bits(x: u32) { F32::from_bits(x).to_bits() }
    fn probe__F32_consts(k: u8) {
        match k {
            0 => F32::ZERO.to_bits(),
            1 => F32::ONE.to_bits(),
            2 => F32::RADIX,
            3 => F32::MANTISSA_DIGITS,
            4 => F32::DIGITS,
            5 => F32::EPSILON.to_bits(),
            6 => F32::MIN.to_bits(),
            7 => F32::MIN_POSITIVE.to_bits(),
            8 => F32::MAX.to_bits(),
            9 => F32::MIN_EXP as u32,
            10 => F32::MAX_EXP as u32,
            11 => F32::MIN_10_EXP as u32,
            12 => F32::MAX_10_EXP as u32,
            13 => F32::NAN.is_nan() as u32,
            14 => F32::INFINITY.to_bits(),
            15 => F32::NEG_INFINITY.to_bits(),
            _ => F32::default().to_bits(),
        }
    }
    fn probe__F32_add(x: f32, y: f32) { w(x) + w(y) }
    fn probe__F32_add_f32(x: f32, y: f32) { w(x) + y }
    fn probe__f32_add_F32(x: f32, y: f32) { x + w(y) }
    fn probe__F32_sub(x: f32, y: f32) { w(x) - w(y) }
    fn probe__F32_sub_f32(x: f32, y: f32) { w(x) - y }
    fn probe__f32_sub_F32(x: f32, y: f32) { x - w(y) }
    fn probe__F32_mul(x: f32, y: f32) { w(x) * w(y) }
    fn probe__F32_mul_f32(x: f32, y: f32) { w(x) * y }
    fn probe__f32_mul_F32(x: f32, y: f32) { x * w(y) }
    fn probe__F32_div(x: f32, y: f32) { w(x) / w(y) }
    fn probe__F32_div_f32(x: f32, y: f32) { w(x) / y }
    fn probe__f32_div_F32(x: f32, y: f32) { x / w(y) }
    fn probe__F32_rem(x: f32, y: f32) { w(x) % w(y) }
    fn probe__F32_rem_f32(x: f32, y: f32) { w(x) % y }
    fn probe__f32_rem_F32(x: f32, y: f32) { x % w(y) }
    fn probe__F32_neg(x: f32) { -w(x) }
    fn probe__F32_add_assign(x: f32, y: f32) { let mut a = w(x); a += w(y); a }
    fn probe__F32_add_assign_f32(x: f32, y: f32) { let mut a = w(x); a += y; a }
    fn probe__f32_add_assign_F32(x: f32, y: f32) { let mut a = x; a += w(y); a }
    fn probe__F32_sub_assign(x: f32, y: f32) { let mut a = w(x); a -= w(y); a }
    fn probe__F32_sub_assign_f32(x: f32, y: f32) { let mut a = w(x); a -= y; a }
    fn probe__f32_sub_assign_F32(x: f32, y: f32) { let mut a = x; a -= w(y); a }
    fn probe__F32_mul_assign(x: f32, y: f32) { let mut a = w(x); a *= w(y); a }
    fn probe__F32_mul_assign_f32(x: f32, y: f32) { let mut a = w(x); a *= y; a }
    fn probe__f32_mul_assign_F32(x: f32, y: f32) { let mut a = x; a *= w(y); a }
    fn probe__F32_div_assign(x: f32, y: f32) { let mut a = w(x); a /= w(y); a }
    fn probe__F32_div_assign_f32(x: f32, y: f32) { let mut a = w(x); a /= y; a }
    fn probe__f32_div_assign_F32(x: f32, y: f32) { let mut a = x; a /= w(y); a }
    fn probe__F32_rem_assign(x: f32, y: f32) { let mut a = w(x); a %= w(y); a }
    fn probe__F32_rem_assign_f32(x: f32, y: f32) { let mut a = w(x); a %= y; a }
    fn probe__F32_eq(x: f32, y: f32) { w(x) == w(y) }
    fn probe__F32_eq_f32(x: f32, y: f32) { w(x) == y }
    fn probe__f32_eq_F32(x: f32, y: f32) { x == w(y) }
    fn probe__F32_cmp(x: f32, y: f32) { w(x).partial_cmp(&w(y)) }
    fn probe__F32_cmp_f32(x: f32, y: f32) { w(x).partial_cmp(&y) }
    fn probe__f32_cmp_F32(x: f32, y: f32) { x.partial_cmp(&w(y)) }
    fn probe__F32_from_i8(x: i8) { F32::from(x) }
    fn probe__F32_from_i16(x: i16) { F32::from(x) }
    fn probe__F32_from_u8(x: u8) { F32::from(x) }
    fn probe__F32_from_u16(x: u16) { F32::from(x) }
    fn probe__F32_sum(x: f32, y: f32, z: f32) { [w(x), w(y), w(z)].iter().cloned().sum::<F32>() }
    fn probe__F32_product(x: f32, y: f32, z: f32) { [w(x), w(y), w(z)].iter().cloned().product::<F32>() }
    fn probe__F32_display(x: f32) { format(&w(x), <F32 as Display>::fmt) }
    fn probe__F32_lower_exp(x: f32) { format(&w(x), <F32 as LowerExp>::fmt) }
    fn probe__F32_upper_exp(x: f32) { format(&w(x), <F32 as UpperExp>::fmt) }
    fn probe__F32_from_str(a: u32, b: u32) {
        match F32::from_str(unsafe { ref_str(a, b) }) {
            Ok(x) => x.out(),
            Err(_) => 1 << 32,
        }
    }
}

#[cfg(feature = "num-traits")]
pub mod num {
    use super::*;
    use micromath::num_traits::{Inv, Num, One, Zero};
    probes! { TABLE:
        fn probe__Num_zero() { <F32 as Zero>::zero() }
        fn probe__Num_one() { <F32 as One>::one() }
        fn probe__Num_is_zero(x: f32) { Zero::is_zero(&w(x)) }
        fn probe__Num_is_one(x: f32) { One::is_one(&w(x)) }
        fn probe__Num_inv(x: f32) { Inv::inv(w(x)) }
        fn probe__Num_from_str_radix_10(a: u32, b: u32) {
            match <F32 as Num>::from_str_radix(unsafe { ref_str(a, b) }, 10) {
                Ok(x) => x.out(),
                Err(_) => 1 << 32,
            }
        }
    }
}

#[cfg(feature = "statistics")]
pub mod statistics {
    use super::*;
    use micromath::statistics::{Mean, StdDev, Trim, Variance};
    probes! { TABLE:
        fn probe__stat_mean_0() { [0f32; 0].iter().cloned().mean() }
        fn probe__stat_mean_1(x: f32) { [x].iter().cloned().mean() }
        fn probe__stat_mean_3(x: f32, y: f32, z: f32) { [x, y, z].iter().cloned().mean() }
        fn probe__stat_variance_1(x: f32) { (&[x][..]).variance() }
        fn probe__stat_variance_3(x: f32, y: f32, z: f32) { (&[x, y, z][..]).variance() }
        fn probe__stat_stddev_1(x: f32) { (&[x][..]).stddev() }
        fn probe__stat_stddev_3(x: f32, y: f32, z: f32) { (&[x, y, z][..]).stddev() }
        fn probe__stat_trim_3(x: f32, y: f32, z: f32) { (&[x, y, z][..]).trim().next().unwrap_or(f32::NAN) }
        fn probe__stat_trim_at_3(x: f32, y: f32, z: f32, t: f32) { (&[x, y, z][..]).trim_at(t).next().unwrap_or(f32::NAN) }
        fn probe__stat_trim_i16(x: i16, y: i16, z: i16) { (&[x, y, z][..]).trim().next().map_or(1 << 20, |x| x as i32) }
    }
}

/// arguments of unbounded size: compared by the text of the IR
pub mod slices {
    use super::*;
    #[no_mangle]
    pub fn slice__sum(x: &[F32]) -> u64 { x.iter().cloned().sum::<F32>().out() }
    #[no_mangle]
    pub fn slice__product(x: &[F32]) -> u64 { x.iter().cloned().product::<F32>().out() }
    #[cfg(feature = "statistics")]
    pub mod statistics {
        use super::*;
        use micromath::statistics::{trim::{Iter, Trim}, Mean, StdDev, Variance};
        #[no_mangle]
        pub fn slice__mean(x: &[f32]) -> u64 { x.iter().cloned().mean().out() }
        #[no_mangle]
        pub fn slice__variance(x: &[f32]) -> u64 { x.variance().out() }
        #[no_mangle]
        pub fn slice__stddev(x: &[f32]) -> u64 { x.stddev().out() }
        #[no_mangle]
        pub fn slice__trim<'a>(x: &'a &'a [f32]) -> Iter<'a, f32> { x.trim() }
        #[no_mangle]
        pub fn slice__trim_at<'a>(x: &'a &'a [f32], t: f32) -> Iter<'a, f32> { x.trim_at(t) }
        #[no_mangle]
        pub fn slice__trim_next(x: &mut Iter<'_, f32>) -> Option<f32> { x.next() }
        #[no_mangle]
        pub fn slice__trim_i16<'a>(x: &'a &'a [i16], t: f32) -> Iter<'a, i16> { x.trim_at(t) }
        #[no_mangle]
        pub fn slice__trim_next_i16(x: &mut Iter<'_, i16>) -> Option<i16> { x.next() }
    }
}

#[cfg(feature = "vector")]
pub mod vector {
    use super::*;
    use micromath::vector::{F32x2, F32x3, I16x2, I16x3, I8x2, I8x3, U16x2, U16x3, U8x2, U8x3, Vector, Vector2d, Vector3d};
    macro_rules! ints {
        ($m:ident $t:ty) => {
            pub mod $m {
                use super::*;
                type V2 = Vector2d<$t>;
                type V3 = Vector3d<$t>;
                fn c2(v: V2, k: u8) -> $t { if k == 0 { v.x } else { v.y } }
                fn c3(v: V3, k: u8) -> $t { if k == 0 { v.x } else if k == 1 { v.y } else { v.z } }
                pub fn add2(a: $t, b: $t, c: $t, d: $t, k: u8) -> $t { c2(V2 { x: a, y: b } + V2 { x: c, y: d }, k) }
                pub fn sub2(a: $t, b: $t, c: $t, d: $t, k: u8) -> $t { c2(V2 { x: a, y: b } - V2 { x: c, y: d }, k) }
                pub fn mul2(a: $t, b: $t, s: $t, k: u8) -> $t { c2(V2 { x: a, y: b } * s, k) }
                pub fn mul2r(a: $t, b: $t, s: $t, k: u8) -> $t { c2(s * V2 { x: a, y: b }, k) }
                pub fn div2(a: $t, b: $t, s: $t, k: u8) -> $t { c2(V2 { x: a, y: b } / s, k) }
                pub fn dot2(a: $t, b: $t, c: $t, d: $t) -> $t { V2 { x: a, y: b }.dot(V2 { x: c, y: d }) }
                pub fn cross2m(a: $t, b: $t, c: $t, d: $t, k: u8) -> $t { c3(V2 { x: a, y: b } * V2 { x: c, y: d }, k) }
                pub fn perp2(a: $t, b: $t, c: $t, d: $t) -> $t { V2 { x: a, y: b }.perpendicular_dot(V2 { x: c, y: d }) }
                pub fn cross2(a: $t, b: $t, c: $t, d: $t, k: u8) -> $t { c3(V2 { x: a, y: b }.cross(V2 { x: c, y: d }), k) }
                pub fn assign2(a: $t, b: $t, c: $t, d: $t, s: $t, t: $t, k: u8) -> $t {
                    let mut v = V2 { x: a, y: b };
                    v += V2 { x: c, y: d };
                    v *= s;
                    v -= V2 { x: d, y: c };
                    v /= t;
                    c2(v, k)
                }
                pub fn conv2(a: $t, b: $t, k: u8) -> $t {
                    match k {
                        0 => V2::from((a, b)).x,
                        1 => V2::from([a, b]).y,
                        2 => <($t, $t)>::from(V2 { x: a, y: b }).1,
                        3 => <[$t; 2]>::from(V2 { x: a, y: b })[0],
                        4 => V2 { x: a, y: b }.to_array()[1],
                        5 => c2([a, b].iter().cloned().collect::<V2>(), 1),
                        6 => c2(V2::from_slice(&[a, b]), 0),
                        7 => V2 { x: a, y: b }.iter().nth(1).unwrap(),
                        8 => V2 { x: a, y: b }[1],
                        9 => V2 { x: a, y: b }.get(0).unwrap(),
                        10 => V3::from(V2 { x: a, y: b }).z,
                        _ => c2([V2 { x: a, y: b }, V2 { x: b, y: a }].iter().sum::<V2>(), 0),
                    }
                }
                pub fn add3(a: $t, b: $t, c: $t, d: $t, e: $t, f: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c } + V3 { x: d, y: e, z: f }, k) }
                pub fn sub3(a: $t, b: $t, c: $t, d: $t, e: $t, f: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c } - V3 { x: d, y: e, z: f }, k) }
                pub fn mul3(a: $t, b: $t, c: $t, s: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c } * s, k) }
                pub fn mul3r(a: $t, b: $t, c: $t, s: $t, k: u8) -> $t { c3(s * V3 { x: a, y: b, z: c }, k) }
                pub fn div3(a: $t, b: $t, c: $t, s: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c } / s, k) }
                pub fn dot3(a: $t, b: $t, c: $t, d: $t, e: $t, f: $t) -> $t { V3 { x: a, y: b, z: c }.dot(V3 { x: d, y: e, z: f }) }
                pub fn cross3m(a: $t, b: $t, c: $t, d: $t, e: $t, f: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c } * V3 { x: d, y: e, z: f }, k) }
                pub fn cross3(a: $t, b: $t, c: $t, d: $t, e: $t, f: $t, k: u8) -> $t { c3(V3 { x: a, y: b, z: c }.cross(V3 { x: d, y: e, z: f }), k) }
                pub fn assign3(a: $t, b: $t, c: $t, d: $t, s: $t, t: $t, k: u8) -> $t {
                    let mut v = V3 { x: a, y: b, z: c };
                    v += V3 { x: c, y: d, z: a };
                    v *= s;
                    v -= V3 { x: d, y: c, z: b };
                    v /= t;
                    c3(v, k)
                }
                pub fn conv3(a: $t, b: $t, c: $t, k: u8) -> $t {
                    match k {
                        0 => V3::from((a, b, c)).x,
                        1 => V3::from([a, b, c]).y,
                        2 => <($t, $t, $t)>::from(V3 { x: a, y: b, z: c }).1,
                        3 => <[$t; 3]>::from(V3 { x: a, y: b, z: c })[0],
                        4 => V3 { x: a, y: b, z: c }.to_array()[2],
                        5 => c3([a, b, c].iter().cloned().collect::<V3>(), 1),
                        6 => c3(V3::from_slice(&[a, b, c]), 2),
                        7 => V3 { x: a, y: b, z: c }.iter().nth(1).unwrap(),
                        8 => V3 { x: a, y: b, z: c }[2],
                        9 => V3 { x: a, y: b, z: c }.get(0).unwrap(),
                        _ => c3([V3 { x: a, y: b, z: c }, V3 { x: b, y: c, z: a }].iter().sum::<V3>(), 0),
                    }
                }
            }
        };
    }
    ints!(vi8 i8);
    ints!(vi16 i16);
    ints!(vi32 i32);
    ints!(vu8 u8);
    ints!(vu16 u16);
    ints!(vu32 u32);
    ints!(vf32 f32);
    probes! { T_I8:
        fn probe__vec_add2_i8(a: i8, b: i8, c: i8, d: i8, k: u8) { vi8::add2(a, b, c, d, k) }
        fn probe__vec_sub2_i8(a: i8, b: i8, c: i8, d: i8, k: u8) { vi8::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_i8(a: i8, b: i8, s: i8, k: u8) { vi8::mul2(a, b, s, k) }
        fn probe__vec_mul2r_i8(a: i8, b: i8, s: i8, k: u8) { vi8::mul2r(a, b, s, k) }
        fn probe__vec_div2_i8(a: i8, b: i8, s: i8, k: u8) { vi8::div2(a, b, s, k) }
        fn probe__vec_dot2_i8(a: i8, b: i8, c: i8, d: i8) { vi8::dot2(a, b, c, d) }
        fn probe__vec_cross2m_i8(a: i8, b: i8, c: i8, d: i8, k: u8) { vi8::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_i8(a: i8, b: i8, c: i8, d: i8) { vi8::perp2(a, b, c, d) }
        fn probe__vec_cross2_i8(a: i8, b: i8, c: i8, d: i8, k: u8) { vi8::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_i8(a: i8, b: i8, c: i8, d: i8, s: i8, t: i8, k: u8) { vi8::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_i8(a: i8, b: i8, k: u8) { vi8::conv2(a, b, k) }
        fn probe__vec_add3_i8(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, k: u8) { vi8::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_i8(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, k: u8) { vi8::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_i8(a: i8, b: i8, c: i8, s: i8, k: u8) { vi8::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_i8(a: i8, b: i8, c: i8, s: i8, k: u8) { vi8::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_i8(a: i8, b: i8, c: i8, s: i8, k: u8) { vi8::div3(a, b, c, s, k) }
        fn probe__vec_dot3_i8(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8) { vi8::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_i8(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, k: u8) { vi8::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_i8(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8, k: u8) { vi8::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_i8(a: i8, b: i8, c: i8, d: i8, s: i8, t: i8, k: u8) { vi8::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_i8(a: i8, b: i8, c: i8, k: u8) { vi8::conv3(a, b, c, k) }
    }
    probes! { T_I16:
        fn probe__vec_add2_i16(a: i16, b: i16, c: i16, d: i16, k: u8) { vi16::add2(a, b, c, d, k) }
        fn probe__vec_sub2_i16(a: i16, b: i16, c: i16, d: i16, k: u8) { vi16::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_i16(a: i16, b: i16, s: i16, k: u8) { vi16::mul2(a, b, s, k) }
        fn probe__vec_mul2r_i16(a: i16, b: i16, s: i16, k: u8) { vi16::mul2r(a, b, s, k) }
        fn probe__vec_div2_i16(a: i16, b: i16, s: i16, k: u8) { vi16::div2(a, b, s, k) }
        fn probe__vec_dot2_i16(a: i16, b: i16, c: i16, d: i16) { vi16::dot2(a, b, c, d) }
        fn probe__vec_cross2m_i16(a: i16, b: i16, c: i16, d: i16, k: u8) { vi16::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_i16(a: i16, b: i16, c: i16, d: i16) { vi16::perp2(a, b, c, d) }
        fn probe__vec_cross2_i16(a: i16, b: i16, c: i16, d: i16, k: u8) { vi16::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_i16(a: i16, b: i16, c: i16, d: i16, s: i16, t: i16, k: u8) { vi16::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_i16(a: i16, b: i16, k: u8) { vi16::conv2(a, b, k) }
        fn probe__vec_add3_i16(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, k: u8) { vi16::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_i16(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, k: u8) { vi16::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_i16(a: i16, b: i16, c: i16, s: i16, k: u8) { vi16::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_i16(a: i16, b: i16, c: i16, s: i16, k: u8) { vi16::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_i16(a: i16, b: i16, c: i16, s: i16, k: u8) { vi16::div3(a, b, c, s, k) }
        fn probe__vec_dot3_i16(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16) { vi16::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_i16(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, k: u8) { vi16::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_i16(a: i16, b: i16, c: i16, d: i16, e: i16, f: i16, k: u8) { vi16::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_i16(a: i16, b: i16, c: i16, d: i16, s: i16, t: i16, k: u8) { vi16::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_i16(a: i16, b: i16, c: i16, k: u8) { vi16::conv3(a, b, c, k) }
    }
    probes! { T_I32:
        fn probe__vec_add2_i32(a: i32, b: i32, c: i32, d: i32, k: u8) { vi32::add2(a, b, c, d, k) }
        fn probe__vec_sub2_i32(a: i32, b: i32, c: i32, d: i32, k: u8) { vi32::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_i32(a: i32, b: i32, s: i32, k: u8) { vi32::mul2(a, b, s, k) }
        fn probe__vec_mul2r_i32(a: i32, b: i32, s: i32, k: u8) { vi32::mul2r(a, b, s, k) }
        fn probe__vec_div2_i32(a: i32, b: i32, s: i32, k: u8) { vi32::div2(a, b, s, k) }
        fn probe__vec_dot2_i32(a: i32, b: i32, c: i32, d: i32) { vi32::dot2(a, b, c, d) }
        fn probe__vec_cross2m_i32(a: i32, b: i32, c: i32, d: i32, k: u8) { vi32::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_i32(a: i32, b: i32, c: i32, d: i32) { vi32::perp2(a, b, c, d) }
        fn probe__vec_cross2_i32(a: i32, b: i32, c: i32, d: i32, k: u8) { vi32::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_i32(a: i32, b: i32, c: i32, d: i32, s: i32, t: i32, k: u8) { vi32::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_i32(a: i32, b: i32, k: u8) { vi32::conv2(a, b, k) }
        fn probe__vec_add3_i32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32, k: u8) { vi32::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_i32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32, k: u8) { vi32::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_i32(a: i32, b: i32, c: i32, s: i32, k: u8) { vi32::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_i32(a: i32, b: i32, c: i32, s: i32, k: u8) { vi32::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_i32(a: i32, b: i32, c: i32, s: i32, k: u8) { vi32::div3(a, b, c, s, k) }
        fn probe__vec_dot3_i32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32) { vi32::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_i32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32, k: u8) { vi32::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_i32(a: i32, b: i32, c: i32, d: i32, e: i32, f: i32, k: u8) { vi32::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_i32(a: i32, b: i32, c: i32, d: i32, s: i32, t: i32, k: u8) { vi32::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_i32(a: i32, b: i32, c: i32, k: u8) { vi32::conv3(a, b, c, k) }
    }
    probes! { T_U8:
        fn probe__vec_add2_u8(a: u8, b: u8, c: u8, d: u8, k: u8) { vu8::add2(a, b, c, d, k) }
        fn probe__vec_sub2_u8(a: u8, b: u8, c: u8, d: u8, k: u8) { vu8::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_u8(a: u8, b: u8, s: u8, k: u8) { vu8::mul2(a, b, s, k) }
        fn probe__vec_mul2r_u8(a: u8, b: u8, s: u8, k: u8) { vu8::mul2r(a, b, s, k) }
        fn probe__vec_div2_u8(a: u8, b: u8, s: u8, k: u8) { vu8::div2(a, b, s, k) }
        fn probe__vec_dot2_u8(a: u8, b: u8, c: u8, d: u8) { vu8::dot2(a, b, c, d) }
        fn probe__vec_cross2m_u8(a: u8, b: u8, c: u8, d: u8, k: u8) { vu8::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_u8(a: u8, b: u8, c: u8, d: u8) { vu8::perp2(a, b, c, d) }
        fn probe__vec_cross2_u8(a: u8, b: u8, c: u8, d: u8, k: u8) { vu8::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_u8(a: u8, b: u8, c: u8, d: u8, s: u8, t: u8, k: u8) { vu8::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_u8(a: u8, b: u8, k: u8) { vu8::conv2(a, b, k) }
        fn probe__vec_add3_u8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, k: u8) { vu8::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_u8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, k: u8) { vu8::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_u8(a: u8, b: u8, c: u8, s: u8, k: u8) { vu8::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_u8(a: u8, b: u8, c: u8, s: u8, k: u8) { vu8::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_u8(a: u8, b: u8, c: u8, s: u8, k: u8) { vu8::div3(a, b, c, s, k) }
        fn probe__vec_dot3_u8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8) { vu8::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_u8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, k: u8) { vu8::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_u8(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, k: u8) { vu8::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_u8(a: u8, b: u8, c: u8, d: u8, s: u8, t: u8, k: u8) { vu8::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_u8(a: u8, b: u8, c: u8, k: u8) { vu8::conv3(a, b, c, k) }
    }
    probes! { T_U16:
        fn probe__vec_add2_u16(a: u16, b: u16, c: u16, d: u16, k: u8) { vu16::add2(a, b, c, d, k) }
        fn probe__vec_sub2_u16(a: u16, b: u16, c: u16, d: u16, k: u8) { vu16::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_u16(a: u16, b: u16, s: u16, k: u8) { vu16::mul2(a, b, s, k) }
        fn probe__vec_mul2r_u16(a: u16, b: u16, s: u16, k: u8) { vu16::mul2r(a, b, s, k) }
        fn probe__vec_div2_u16(a: u16, b: u16, s: u16, k: u8) { vu16::div2(a, b, s, k) }
        fn probe__vec_dot2_u16(a: u16, b: u16, c: u16, d: u16) { vu16::dot2(a, b, c, d) }
        fn probe__vec_cross2m_u16(a: u16, b: u16, c: u16, d: u16, k: u8) { vu16::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_u16(a: u16, b: u16, c: u16, d: u16) { vu16::perp2(a, b, c, d) }
        fn probe__vec_cross2_u16(a: u16, b: u16, c: u16, d: u16, k: u8) { vu16::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_u16(a: u16, b: u16, c: u16, d: u16, s: u16, t: u16, k: u8) { vu16::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_u16(a: u16, b: u16, k: u8) { vu16::conv2(a, b, k) }
        fn probe__vec_add3_u16(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, k: u8) { vu16::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_u16(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, k: u8) { vu16::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_u16(a: u16, b: u16, c: u16, s: u16, k: u8) { vu16::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_u16(a: u16, b: u16, c: u16, s: u16, k: u8) { vu16::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_u16(a: u16, b: u16, c: u16, s: u16, k: u8) { vu16::div3(a, b, c, s, k) }
        fn probe__vec_dot3_u16(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16) { vu16::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_u16(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, k: u8) { vu16::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_u16(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, k: u8) { vu16::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_u16(a: u16, b: u16, c: u16, d: u16, s: u16, t: u16, k: u8) { vu16::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_u16(a: u16, b: u16, c: u16, k: u8) { vu16::conv3(a, b, c, k) }
    }
    probes! { T_U32:
        fn probe__vec_add2_u32(a: u32, b: u32, c: u32, d: u32, k: u8) { vu32::add2(a, b, c, d, k) }
        fn probe__vec_sub2_u32(a: u32, b: u32, c: u32, d: u32, k: u8) { vu32::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_u32(a: u32, b: u32, s: u32, k: u8) { vu32::mul2(a, b, s, k) }
        fn probe__vec_mul2r_u32(a: u32, b: u32, s: u32, k: u8) { vu32::mul2r(a, b, s, k) }
        fn probe__vec_div2_u32(a: u32, b: u32, s: u32, k: u8) { vu32::div2(a, b, s, k) }
        fn probe__vec_dot2_u32(a: u32, b: u32, c: u32, d: u32) { vu32::dot2(a, b, c, d) }
        fn probe__vec_cross2m_u32(a: u32, b: u32, c: u32, d: u32, k: u8) { vu32::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_u32(a: u32, b: u32, c: u32, d: u32) { vu32::perp2(a, b, c, d) }
        fn probe__vec_cross2_u32(a: u32, b: u32, c: u32, d: u32, k: u8) { vu32::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_u32(a: u32, b: u32, c: u32, d: u32, s: u32, t: u32, k: u8) { vu32::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_u32(a: u32, b: u32, k: u8) { vu32::conv2(a, b, k) }
        fn probe__vec_add3_u32(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, k: u8) { vu32::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_u32(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, k: u8) { vu32::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_u32(a: u32, b: u32, c: u32, s: u32, k: u8) { vu32::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_u32(a: u32, b: u32, c: u32, s: u32, k: u8) { vu32::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_u32(a: u32, b: u32, c: u32, s: u32, k: u8) { vu32::div3(a, b, c, s, k) }
        fn probe__vec_dot3_u32(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32) { vu32::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_u32(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, k: u8) { vu32::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_u32(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, k: u8) { vu32::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_u32(a: u32, b: u32, c: u32, d: u32, s: u32, t: u32, k: u8) { vu32::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_u32(a: u32, b: u32, c: u32, k: u8) { vu32::conv3(a, b, c, k) }
    }
    probes! { T_F32:
        fn probe__vec_add2_f32(a: f32, b: f32, c: f32, d: f32, k: u8) { vf32::add2(a, b, c, d, k) }
        fn probe__vec_sub2_f32(a: f32, b: f32, c: f32, d: f32, k: u8) { vf32::sub2(a, b, c, d, k) }
        fn probe__vec_mul2_f32(a: f32, b: f32, s: f32, k: u8) { vf32::mul2(a, b, s, k) }
        fn probe__vec_mul2r_f32(a: f32, b: f32, s: f32, k: u8) { vf32::mul2r(a, b, s, k) }
        fn probe__vec_div2_f32(a: f32, b: f32, s: f32, k: u8) { vf32::div2(a, b, s, k) }
        fn probe__vec_dot2_f32(a: f32, b: f32, c: f32, d: f32) { vf32::dot2(a, b, c, d) }
        fn probe__vec_cross2m_f32(a: f32, b: f32, c: f32, d: f32, k: u8) { vf32::cross2m(a, b, c, d, k) }
        fn probe__vec_perp2_f32(a: f32, b: f32, c: f32, d: f32) { vf32::perp2(a, b, c, d) }
        fn probe__vec_cross2_f32(a: f32, b: f32, c: f32, d: f32, k: u8) { vf32::cross2(a, b, c, d, k) }
        fn probe__vec_assign2_f32(a: f32, b: f32, c: f32, d: f32, s: f32, t: f32, k: u8) { vf32::assign2(a, b, c, d, s, t, k) }
        fn probe__vec_conv2_f32(a: f32, b: f32, k: u8) { vf32::conv2(a, b, k) }
        fn probe__vec_add3_f32(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, k: u8) { vf32::add3(a, b, c, d, e, f, k) }
        fn probe__vec_sub3_f32(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, k: u8) { vf32::sub3(a, b, c, d, e, f, k) }
        fn probe__vec_mul3_f32(a: f32, b: f32, c: f32, s: f32, k: u8) { vf32::mul3(a, b, c, s, k) }
        fn probe__vec_mul3r_f32(a: f32, b: f32, c: f32, s: f32, k: u8) { vf32::mul3r(a, b, c, s, k) }
        fn probe__vec_div3_f32(a: f32, b: f32, c: f32, s: f32, k: u8) { vf32::div3(a, b, c, s, k) }
        fn probe__vec_dot3_f32(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32) { vf32::dot3(a, b, c, d, e, f) }
        fn probe__vec_cross3m_f32(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, k: u8) { vf32::cross3m(a, b, c, d, e, f, k) }
        fn probe__vec_cross3_f32(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, k: u8) { vf32::cross3(a, b, c, d, e, f, k) }
        fn probe__vec_assign3_f32(a: f32, b: f32, c: f32, d: f32, s: f32, t: f32, k: u8) { vf32::assign3(a, b, c, d, s, t, k) }
        fn probe__vec_conv3_f32(a: f32, b: f32, c: f32, k: u8) { vf32::conv3(a, b, c, k) }
    }
    fn f2(v: F32x2, k: u8) -> f32 { if k == 0 { v.x } else { v.y } }
    fn f3(v: F32x3, k: u8) -> f32 { if k == 0 { v.x } else if k == 1 { v.y } else { v.z } }
    probes! { TABLE:
        fn probe__vec_magnitude2(a: f32, b: f32) { F32x2 { x: a, y: b }.magnitude() }
        fn probe__vec_magnitude3(a: f32, b: f32, c: f32) { F32x3 { x: a, y: b, z: c }.magnitude() }
        fn probe__vec_distance2(a: f32, b: f32, c: f32, d: f32) { F32x2 { x: a, y: b }.distance(F32x2 { x: c, y: d }) }
        fn probe__vec_distance3(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32) { F32x3 { x: a, y: b, z: c }.distance(F32x3 { x: d, y: e, z: f }) }
        fn probe__vec_widen_i8x2(a: i8, b: i8, k: u8) { f2(I8x2 { x: a, y: b }.into(), k) }
        fn probe__vec_widen_i16x2(a: i16, b: i16, k: u8) { f2(I16x2 { x: a, y: b }.into(), k) }
        fn probe__vec_widen_u8x2(a: u8, b: u8, k: u8) { f2(U8x2 { x: a, y: b }.into(), k) }
        fn probe__vec_widen_u16x2(a: u16, b: u16, k: u8) { f2(U16x2 { x: a, y: b }.into(), k) }
        fn probe__vec_widen_i8x3(a: i8, b: i8, c: i8, k: u8) { f3(I8x3 { x: a, y: b, z: c }.into(), k) }
        fn probe__vec_widen_i16x3(a: i16, b: i16, c: i16, k: u8) { f3(I16x3 { x: a, y: b, z: c }.into(), k) }
        fn probe__vec_widen_u8x3(a: u8, b: u8, c: u8, k: u8) { f3(U8x3 { x: a, y: b, z: c }.into(), k) }
        fn probe__vec_widen_u16x3(a: u16, b: u16, c: u16, k: u8) { f3(U16x3 { x: a, y: b, z: c }.into(), k) }
        fn probe__vec_F32_to_f32(a: f32, b: f32, c: f32, k: u8) { f3(Vector3d { x: w(a), y: w(b), z: w(c) }.into(), k) }
        fn probe__vec_eq(a: f32, b: f32, c: f32, d: f32) { F32x2 { x: a, y: b } == F32x2 { x: c, y: d } }
    }
}

#[cfg(feature = "quaternion")]
pub mod quaternion {
    use super::*;
    use micromath::Quaternion;
    fn q(a: f32, b: f32, c: f32, d: f32) -> Quaternion { Quaternion::new(a, b, c, d) }
    fn c(v: Quaternion, k: u8) -> f32 { if k == 0 { v.w() } else if k == 1 { v.x() } else if k == 2 { v.y() } else { v.z() } }
    probes! { TABLE:
        fn probe__quat_add(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, v: f32, k: u8) { c(q(a, b, e, d) + q(s, t, u, v), k) }
        fn probe__quat_sub(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, v: f32, k: u8) { c(q(a, b, e, d) - q(s, t, u, v), k) }
        fn probe__quat_mul(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, v: f32, k: u8) { c(q(a, b, e, d) * q(s, t, u, v), k) }
        fn probe__quat_dot(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, v: f32) { q(a, b, e, d).dot(q(s, t, u, v)) }
        fn probe__quat_assign(a: f32, b: f32, e: f32, d: f32, s: f32, k: u8) {
            let mut x = q(a, b, e, d);
            x += q(d, a, b, e);
            x *= s;
            x -= q(e, d, a, b);
            c(x, k)
        }
        fn probe__quat_scale(a: f32, b: f32, e: f32, d: f32, s: f32, k: u8) { c(q(a, b, e, d).scale(s), k) }
        fn probe__quat_mul_f32(a: f32, b: f32, e: f32, d: f32, s: f32, k: u8) { c(q(a, b, e, d) * s, k) }
        fn probe__quat_f32_mul(a: f32, b: f32, e: f32, d: f32, s: f32, k: u8) { c(s * q(a, b, e, d), k) }
        fn probe__quat_conj(a: f32, b: f32, e: f32, d: f32, k: u8) { c(q(a, b, e, d).conj(), k) }
        fn probe__quat_inv(a: f32, b: f32, e: f32, d: f32, k: u8) { c(q(a, b, e, d).inv(), k) }
        fn probe__quat_normalize(a: f32, b: f32, e: f32, d: f32, k: u8) { c(q(a, b, e, d).normalize(), k) }
        fn probe__quat_magnitude(a: f32, b: f32, e: f32, d: f32) { q(a, b, e, d).magnitude() }
        fn probe__quat_norm(a: f32, b: f32, e: f32, d: f32) { q(a, b, e, d).norm() }
        fn probe__quat_euler(a: f32, b: f32, e: f32, d: f32, k: u8) {
            let r = q(a, b, e, d).to_euler();
            if k == 0 { r.0 } else if k == 1 { r.1 } else { r.2 }
        }
        fn probe__quat_array(a: f32, b: f32, e: f32, d: f32, k: u8) { q(a, b, e, d).to_array()[k as usize % 4] }
        fn probe__quat_from_array(a: f32, b: f32, e: f32, d: f32, k: u8) { c([a, b, e, d].into(), k) }
        fn probe__quat_from_tuple(a: f32, b: f32, e: f32, d: f32, k: u8) { c((a, b, e, d).into(), k) }
        fn probe__quat_into_array(a: f32, b: f32, e: f32, d: f32, k: u8) { <[f32; 4]>::from(q(a, b, e, d))[k as usize % 4] }
        fn probe__quat_into_tuple(a: f32, b: f32, e: f32, d: f32, k: u8) {
            let r = <(f32, f32, f32, f32)>::from(q(a, b, e, d));
            if k == 0 { r.0 } else if k == 1 { r.1 } else if k == 2 { r.2 } else { r.3 }
        }
        fn probe__quat_identity(k: u8) { c(Quaternion::IDENTITY, k) }
        fn probe__quat_default(k: u8) { c(Quaternion::default(), k) }
        fn probe__quat_eq(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, v: f32) { q(a, b, e, d) == q(s, t, u, v) }
    }
    #[cfg(feature = "vector")]
    pub mod vector {
        use super::*;
        use micromath::vector::{F32x3, Vector};
        fn v3(x: f32, y: f32, z: f32) -> F32x3 { F32x3 { x, y, z } }
        fn c3(v: F32x3, k: u8) -> f32 { v.get(k as usize % 3).unwrap() }
        probes! { TABLE:
            fn probe__quat_two_vectors(a: f32, b: f32, d: f32, s: f32, t: f32, u: f32, k: u8) { c(Quaternion::from_two_vectors(v3(a, b, d), v3(s, t, u)), k) }
            fn probe__quat_axis_angle(a: f32, b: f32, d: f32, t: f32, k: u8) { c(Quaternion::axis_angle(v3(a, b, d), t), k) }
            fn probe__quat_rotate(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, k: u8) { c3(q(a, b, e, d).rotate(v3(s, t, u)), k) }
            fn probe__quat_from_vector(a: f32, b: f32, d: f32, k: u8) { c(Quaternion::from(v3(a, b, d)), k) }
            fn probe__quat_mul_vector(a: f32, b: f32, e: f32, d: f32, s: f32, t: f32, u: f32, k: u8) { c3((q(a, b, e, d) * v3(s, t, u)).into(), k) }
        }
    }
}

/// the probes of this build
pub fn tables() -> impl Iterator<Item = &'static Entry> {
    let r = BASE.iter();
    #[cfg(feature = "num-traits")]
    let r = r.chain(num::TABLE);
    #[cfg(feature = "statistics")]
    let r = r.chain(statistics::TABLE);
    #[cfg(feature = "vector")]
    let r = r.chain(vector::TABLE).chain(vector::T_I8).chain(vector::T_I16).chain(vector::T_I32).chain(vector::T_U8).chain(vector::T_U16).chain(vector::T_U32).chain(vector::T_F32);
    #[cfg(feature = "quaternion")]
    let r = r.chain(quaternion::TABLE);
    #[cfg(all(feature = "quaternion", feature = "vector"))]
    let r = r.chain(quaternion::vector::TABLE);
    r
}
