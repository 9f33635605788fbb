//! Contracts over slices of any length (C21, C22, C31): the loops are cut at their heads.
use crate::exact::same;
use crate::{ens, req, vcs};
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::F32;

extern "C" {
    fn ref_items(n: usize, bound: f32) -> *const f32;
    fn ref_items_of(n: usize, code: u32) -> *const u8;
    fn ref_converted_of(n: usize, code: u32) -> *const f32;
    fn ref_at(it: *mut u8, size: usize, first: *const u8, p: usize) -> bool;
    fn ref_same(a: *const u8, b: *const u8, size: usize) -> bool;
}
/// n arbitrary values of magnitude at most bound (any values at all for an infinite bound)
#[inline(always)]
fn items(n: u32, bound: f32) -> &'static [f32] {
    unsafe { core::slice::from_raw_parts(ref_items(n as usize, bound), n as usize) }
}
#[inline(always)]
fn wrapped(xs: &'static [f32]) -> &'static [F32] {
    unsafe { core::slice::from_raw_parts(xs.as_ptr() as *const F32, xs.len()) }
}
/// the same of an integer type
trait Int: Copy + 'static {
    const CODE: u32;
}
macro_rules! int {
    ($($t:ty => $c:literal),*) => {$(impl Int for $t { const CODE: u32 = $c; })*};
}
int!(i8 => 1, u8 => 2, i16 => 3, u16 => 4, i32 => 5, u32 => 6);
#[inline(always)]
fn ints<T: Int>(n: u32) -> &'static [T] {
    unsafe { core::slice::from_raw_parts(ref_items_of(n as usize, T::CODE) as *const T, n as usize) }
}
/// those values as f32
#[inline(always)]
fn converted<T: Int>(n: u32) -> &'static [f32] {
    unsafe { core::slice::from_raw_parts(ref_converted_of(n as usize, T::CODE), n as usize) }
}
#[inline(always)]
fn within(r: f64, s: f64, m: f64, n: f64) -> bool {
    let d = r - s;
    let e = (n + 8.0) * 1.2e-7 * m + n * 1e-44;
    (d <= e) & (d >= -e)
}
/// the iterator at position p: the state it is in when p items have been read
#[inline(always)]
fn at<I, T>(it: &mut I, xs: &[T], p: usize) -> bool {
    unsafe { ref_at(it as *mut I as *mut u8, core::mem::size_of::<I>(), xs.as_ptr() as *const u8, p) }
}
#[inline(always)]
fn unchanged<I>(a: &I, b: &I) -> bool {
    unsafe { ref_same(a as *const I as *const u8, b as *const I as *const u8, core::mem::size_of::<I>()) }
}

vcs! {
// from every position p: next() gives the first item from p on that is kept, and the iterator is then the
// one at the position behind that item (none: at the end). By induction every call of next() is covered.
fn vc__C32__next_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let xs = items(n, f32::INFINITY);
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = xs.trim_at(t);
    req!(at(&mut it, xs, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &xs[p as usize..] {
        q += 1;
        if (*x - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, same(got.unwrap_or(0.0), want.unwrap_or(0.0)));
    let mut then = xs.trim_at(t);
    req!(at(&mut then, xs, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_wrapped_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let xs = items(n, f32::INFINITY);
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let ws = wrapped(xs);
    let mut it = ws.trim_at(t);
    req!(at(&mut it, ws, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &xs[p as usize..] {
        q += 1;
        if (*x - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, same(got.unwrap_or(F32(0.0)).0, want.unwrap_or(0.0)));
    let mut then = ws.trim_at(t);
    req!(at(&mut then, ws, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_default_all(n: u32, p: u32) {
    req!((n <= 1 << 24) & (p <= n));
    let xs = items(n, f32::INFINITY);
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = xs.trim();
    req!(at(&mut it, xs, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &xs[p as usize..] {
        q += 1;
        if (*x - m).abs() / d < 2.0 {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, same(got.unwrap_or(0.0), want.unwrap_or(0.0)));
    let mut then = xs.trim();
    req!(at(&mut then, xs, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_i8_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let (is, xs) = (ints::<i8>(n), converted::<i8>(n));
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = is.trim_at(t);
    req!(at(&mut it, is, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &is[p as usize..] {
        q += 1;
        if (*x as f32 - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, got == want);
    let mut then = is.trim_at(t);
    req!(at(&mut then, is, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_u8_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let (is, xs) = (ints::<u8>(n), converted::<u8>(n));
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = is.trim_at(t);
    req!(at(&mut it, is, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &is[p as usize..] {
        q += 1;
        if (*x as f32 - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, got == want);
    let mut then = is.trim_at(t);
    req!(at(&mut then, is, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_i16_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let (is, xs) = (ints::<i16>(n), converted::<i16>(n));
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = is.trim_at(t);
    req!(at(&mut it, is, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &is[p as usize..] {
        q += 1;
        if (*x as f32 - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, got == want);
    let mut then = is.trim_at(t);
    req!(at(&mut then, is, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C32__next_u16_all(n: u32, p: u32, t: f32) {
    req!((n <= 1 << 24) & (p <= n));
    let (is, xs) = (ints::<u16>(n), converted::<u16>(n));
    let (m, d) = (xs.iter().copied().mean(), xs.stddev());
    let mut it = is.trim_at(t);
    req!(at(&mut it, is, p as usize));
    let got = it.next();
    let (mut want, mut q) = (None, p as usize);
    for x in &is[p as usize..] {
        q += 1;
        if (*x as f32 - m).abs() / d < t {
            want = Some(*x);
            break;
        }
    }
    ens!(0, got.is_some() == want.is_some());
    ens!(1, got == want);
    let mut then = is.trim_at(t);
    req!(at(&mut then, is, q));
    ens!(2, unchanged(&it, &then));
}
fn vc__C31__mean_all(n: u32) {
    req!((n >= 1) & (n <= 1 << 24));
    let xs = items(n, 1e15);
    let m = xs.iter().copied().mean();
    let (mut s, mut a) = (0.0f64, 0.0f64);
    for x in xs {
        s += *x as f64;
        a += (*x as f64).abs();
    }
    ens!(0, within(m as f64 * n as f64, s, a, n as f64));
}
fn vc__C31__variance_all(n: u32) {
    req!((n >= 2) & (n <= 1 << 24));
    let xs = items(n, 1e15);
    let m = xs.iter().copied().mean() as f64;
    let v = xs.variance();
    let mut s = 0.0f64;
    for x in xs {
        let d = *x as f64 - m;
        s += d * d;
    }
    ens!(0, within(v as f64 * (n - 1) as f64, s, s, n as f64));
}
fn vc__C31__stddev_all(n: u32) {
    req!(n <= 1 << 24);
    let xs = items(n, f32::INFINITY);
    ens!(0, same(xs.stddev(), F32(xs.variance()).sqrt().0));
}
fn vc__C31__wrapped_all(n: u32) {
    req!(n <= 1 << 24);
    let xs = items(n, f32::INFINITY);
    let ws = wrapped(xs);
    ens!(0, same(ws.variance(), xs.variance()));
    ens!(1, same(ws.stddev(), xs.stddev()));
}
fn vc__C31__converted_i8_all(n: u32) {
    req!(n <= 1 << 24);
    let (is, xs) = (ints::<i8>(n), converted::<i8>(n));
    ens!(0, same(is.variance(), xs.variance()));
    ens!(1, same(is.stddev(), xs.stddev()));
    ens!(2, same(is.iter().map(|x| *x as f32).mean(), xs.iter().copied().mean()));
}
fn vc__C31__converted_u8_all(n: u32) {
    req!(n <= 1 << 24);
    let (is, xs) = (ints::<u8>(n), converted::<u8>(n));
    ens!(0, same(is.variance(), xs.variance()));
    ens!(1, same(is.stddev(), xs.stddev()));
    ens!(2, same(is.iter().map(|x| *x as f32).mean(), xs.iter().copied().mean()));
}
fn vc__C31__converted_i16_all(n: u32) {
    req!(n <= 1 << 24);
    let (is, xs) = (ints::<i16>(n), converted::<i16>(n));
    ens!(0, same(is.variance(), xs.variance()));
    ens!(1, same(is.stddev(), xs.stddev()));
    ens!(2, same(is.iter().map(|x| *x as f32).mean(), xs.iter().copied().mean()));
}
fn vc__C31__converted_u16_all(n: u32) {
    req!(n <= 1 << 24);
    let (is, xs) = (ints::<u16>(n), converted::<u16>(n));
    ens!(0, same(is.variance(), xs.variance()));
    ens!(1, same(is.stddev(), xs.stddev()));
    ens!(2, same(is.iter().map(|x| *x as f32).mean(), xs.iter().copied().mean()));
}
fn vc__C21__folds_all(n: u32) {
    req!(n <= 1 << 24);
    let xs = items(n, f32::INFINITY);
    let (mut s, mut z, mut p) = (0.0f32, -0.0f32, 1.0f32);
    for x in xs {
        s += *x;
    }
    for x in xs {
        z += *x;
    }
    for x in xs {
        p *= *x;
    }
    let r = xs.iter().map(|x| F32(*x)).sum::<F32>().0;
    ens!(0, same(r, s) | same(r, z));
    let r = xs.iter().map(|x| F32(*x)).product::<F32>().0;
    ens!(1, same(r, p));
}
fn vc__C22__folds_all(n: u32) {
    req!(n <= 1 << 24);
    let xs = items(n, f32::INFINITY);
    let (mut s, mut t) = (0.0f32, 0.0f32);
    for x in xs {
        s += *x;
        t += -*x;
    }
    let r: Vector3d<f32> = xs.iter().map(|x| Vector3d { x: *x, y: -*x, z: *x }).sum();
    ens!(0, same(r.x, s) & same(r.y, t) & same(r.z, s));
    let r: Vector2d<F32> = xs.iter().map(|x| Vector2d { x: F32(-*x), y: F32(*x) }).sum();
    ens!(1, same(r.x.0, t) & same(r.y.0, s));
}
fn vc__C24__items_2d_f32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = items(n, f32::INFINITY);
    let v: Vector2d<f32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_f32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = items(n, f32::INFINITY);
    let v: Vector3d<f32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_w_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = wrapped(items(n, f32::INFINITY));
    let v: Vector2d<F32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_w_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = wrapped(items(n, f32::INFINITY));
    let v: Vector3d<F32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_i8_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<i8>(n);
    let v: Vector2d<i8> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_i8_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<i8>(n);
    let v: Vector3d<i8> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_u8_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<u8>(n);
    let v: Vector2d<u8> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_u8_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<u8>(n);
    let v: Vector3d<u8> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_i16_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<i16>(n);
    let v: Vector2d<i16> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_i16_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<i16>(n);
    let v: Vector3d<i16> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_u16_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<u16>(n);
    let v: Vector2d<u16> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_u16_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<u16>(n);
    let v: Vector3d<u16> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_i32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<i32>(n);
    let v: Vector2d<i32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_i32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<i32>(n);
    let v: Vector3d<i32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_2d_u32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 2));
    let xs = ints::<u32>(n);
    let v: Vector2d<u32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
fn vc__C24__items_3d_u32_all__panics(n: u32, it: bool) {
    req!((n <= 1 << 24) & (n != 3));
    let xs = ints::<u32>(n);
    let v: Vector3d<u32> = if it { Vector::from_slice(xs) } else { xs.iter().copied().collect() };
    ens!(0, (v.x == v.x) & (v.x != v.x));
}
}
