//! Contracts of Quaternion: C26, C28, C30.
use crate::exact::same;
use crate::vector::below;
use crate::refs;
use crate::{ens, req, vcs};
use micromath::vector::Vector3d;
use micromath::{Quaternion, F32};

/// r differs from the sum of the terms by at most 1e-6 of the sum of their magnitudes (1e-40 for underflow)
#[inline(always)]
fn sums(r: f32, t: &[f64]) -> bool {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    let d = r as f64 - s;
    let e = 1e-6 * m + 1e-40;
    (d <= e) & (d >= -e)
}
/// a*d and b*c agree up to rounding
#[inline(always)]
fn parallel(a: f32, b: f32, c: f32, d: f32) -> bool {
    let (p, q) = (a as f64 * d as f64, b as f64 * c as f64);
    let e = 1e-6 * (p.abs() + q.abs()) + 1e-24;
    (p - q <= e) & (p - q >= -e)
}
/// twice the sum of the terms, and its tolerance
#[inline(always)]
fn twice(t: &[f64]) -> (f64, f64) {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    (2.0 * s, 2e-6 * m + 1e-40)
}
#[inline(always)]
fn sq(x: f32) -> f64 {
    x as f64 * x as f64
}
#[inline(always)]
fn norm2(q: &[f32; 4]) -> f64 {
    sq(q[0]) + sq(q[1]) + sq(q[2]) + sq(q[3])
}

vcs! {
fn vc__C26__mul(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32, d: f32) {
    req!(below(w, 1e18) & below(x, 1e18) & below(y, 1e18) & below(z, 1e18));
    req!(below(a, 1e18) & below(b, 1e18) & below(c, 1e18) & below(d, 1e18));
    let r = Quaternion::new(w, x, y, z) * Quaternion::new(a, b, c, d);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c, d) = (a as f64, b as f64, c as f64, d as f64);
    ens!(0, sums(r.w(), &[w * a, -(x * b), -(y * c), -(z * d)]));
    ens!(1, sums(r.x(), &[w * b, x * a, y * d, -(z * c)]));
    ens!(2, sums(r.y(), &[w * c, -(x * d), y * a, z * b]));
    ens!(3, sums(r.z(), &[w * d, x * c, -(y * b), z * a]));
}
fn vc__C26__dot(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32, d: f32) {
    req!(below(w, 1e18) & below(x, 1e18) & below(y, 1e18) & below(z, 1e18));
    req!(below(a, 1e18) & below(b, 1e18) & below(c, 1e18) & below(d, 1e18));
    let q = Quaternion::new(w, x, y, z);
    let r = q.dot(Quaternion::new(a, b, c, d));
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    ens!(0, sums(r, &[w * a as f64, x * b as f64, y * c as f64, z * d as f64]));
    ens!(1, sums(q.norm(), &[w * w, x * x, y * y, z * z]));
}
fn vc__C26__add(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32, d: f32) {
    let (p, q) = (Quaternion::new(w, x, y, z), Quaternion::new(a, b, c, d));
    let s = p + q;
    let mut t = p;
    t += q;
    ens!(0, same(s.w(), w + a) & same(t.w(), w + a));
    ens!(1, same(s.x(), x + b) & same(t.x(), x + b));
    ens!(2, same(s.y(), y + c) & same(t.y(), y + c));
    ens!(3, same(s.z(), z + d) & same(t.z(), z + d));
}
fn vc__C26__sub(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32, d: f32) {
    let (p, q) = (Quaternion::new(w, x, y, z), Quaternion::new(a, b, c, d));
    let s = p - q;
    let mut t = p;
    t -= q;
    ens!(0, same(s.w(), w - a) & same(t.w(), w - a));
    ens!(1, same(s.x(), x - b) & same(t.x(), x - b));
    ens!(2, same(s.y(), y - c) & same(t.y(), y - c));
    ens!(3, same(s.z(), z - d) & same(t.z(), z - d));
}
fn vc__C26__scale(w: f32, x: f32, y: f32, z: f32, k: f32, op: u8) {
    let q = Quaternion::new(w, x, y, z);
    let r = if op == 0 {
        q * k
    } else if op == 1 {
        k * q
    } else if op == 2 {
        q.scale(k)
    } else if op == 3 {
        q.scale(F32(k))
    } else {
        let mut t = q;
        t *= k;
        t
    };
    ens!(0, same(r.w(), w * k));
    ens!(1, same(r.x(), x * k));
    ens!(2, same(r.y(), y * k));
    ens!(3, same(r.z(), z * k));
}
fn vc__C26__scale_int(w: f32, x: f32, y: f32, z: f32, k: i16) {
    let q = Quaternion::new(w, x, y, z);
    let (r, s) = (q.scale(k), q.scale(k as u8));
    let (j, k) = (k as u8 as f32, k as f32);
    ens!(0, same(r.w(), w * k) & same(r.x(), x * k) & same(r.y(), y * k) & same(r.z(), z * k));
    ens!(1, same(s.w(), w * j) & same(s.x(), x * j) & same(s.y(), y * j) & same(s.z(), z * j));
}
fn vc__C26__conj(w: f32, x: f32, y: f32, z: f32) {
    let r = Quaternion::new(w, x, y, z).conj();
    ens!(0, same(r.w(), w) & same(r.x(), -x) & same(r.y(), -y) & same(r.z(), -z));
}
fn vc__C26__eq(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32, d: f32) {
    let (p, q) = (Quaternion::new(w, x, y, z), Quaternion::new(a, b, c, d));
    let e = (w == a) & (x == b) & (y == c) & (z == d);
    ens!(0, (p == q) == e);
    ens!(1, (p != q) != e);
}
fn vc__C26__conversions(w: f32, x: f32, y: f32, z: f32) {
    let q = Quaternion::new(w, x, y, z);
    ens!(0, same(q.w(), w) & same(q.x(), x) & same(q.y(), y) & same(q.z(), z));
    let t: (f32, f32, f32, f32) = q.into();
    ens!(1, same(t.0, w) & same(t.1, x) & same(t.2, y) & same(t.3, z));
    let t: [f32; 4] = q.into();
    ens!(2, same(t[0], w) & same(t[1], x) & same(t[2], y) & same(t[3], z));
    let t = q.to_array();
    ens!(3, same(t[0], w) & same(t[1], x) & same(t[2], y) & same(t[3], z));
    let q: Quaternion = (w, x, y, z).into();
    ens!(4, same(q.w(), w) & same(q.x(), x) & same(q.y(), y) & same(q.z(), z));
    let q: Quaternion = [w, x, y, z].into();
    ens!(5, same(q.w(), w) & same(q.x(), x) & same(q.y(), y) & same(q.z(), z));
    let q: Quaternion = Vector3d { x, y, z }.into();
    ens!(6, same(q.w(), 0.0) & same(q.x(), x) & same(q.y(), y) & same(q.z(), z));
    for q in [Quaternion::IDENTITY, Quaternion::default()] {
        ens!(7, same(q.w(), 1.0) & same(q.x(), 0.0) & same(q.y(), 0.0) & same(q.z(), 0.0));
    }
}
fn vc__C26__from_int(x: i16, y: i16, z: i16) {
    let q: Quaternion = Vector3d { x, y, z }.into();
    ens!(0, same(q.w(), 0.0) & same(q.x(), x as f32) & same(q.y(), y as f32) & same(q.z(), z as f32));
    let (x, y, z) = (x as u8, y as u8, z as u8);
    let q: Quaternion = Vector3d { x, y, z }.into();
    ens!(1, same(q.w(), 0.0) & same(q.x(), x as f32) & same(q.y(), y as f32) & same(q.z(), z as f32));
    let (x, y, z) = (x as i8, y as i8, z as i8);
    let q: Quaternion = Vector3d { x, y, z }.into();
    ens!(2, same(q.w(), 0.0) & same(q.x(), x as f32) & same(q.y(), y as f32) & same(q.z(), z as f32));
}
fn vc__C28__magnitude(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 2e18) & below(x, 2e18) & below(y, 2e18) & below(z, 2e18));
    let n = norm2(&[w, x, y, z]);
    req!((n >= 1e-36) & (n <= 1e36));
    let r = Quaternion::new(w, x, y, z).magnitude();
    ens!(0, r >= 0.0);
    ens!(1, sq(r) >= 0.9999 * 0.9999 * n);
    ens!(2, sq(r) <= 1.0612 * 1.0612 * n);
}
fn vc__C28__normalize(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 2e18) & below(x, 2e18) & below(y, 2e18) & below(z, 2e18));
    let q = [w, x, y, z];
    let n = norm2(&q);
    req!((n >= 1e-36) & (n <= 1e36));
    let r = Quaternion::new(w, x, y, z).normalize().to_array();
    ens!(0, norm2(&r) >= 0.964 * 0.964);
    ens!(1, norm2(&r) <= 1.036 * 1.036);
    ens!(2, parallel(r[0], r[1], q[0], q[1]) & parallel(r[0], r[2], q[0], q[2]) & parallel(r[0], r[3], q[0], q[3]));
    ens!(3, parallel(r[1], r[2], q[1], q[2]) & parallel(r[1], r[3], q[1], q[3]) & parallel(r[2], r[3], q[2], q[3]));
    ens!(4, (r[0] as f64 * q[0] as f64 >= -1e-24) & (r[1] as f64 * q[1] as f64 >= -1e-24) & (r[2] as f64 * q[2] as f64 >= -1e-24) & (r[3] as f64 * q[3] as f64 >= -1e-24));
}
fn vc__C28__inv_small(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 1.1) & below(x, 1.1) & below(y, 1.1) & below(z, 1.1));
    let n = norm2(&[w, x, y, z]);
    req!((n >= 1e-36) & (n <= 1.0));
    let r = Quaternion::new(w, x, y, z).inv();
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c, d) = (r.w() as f64, r.x() as f64, r.y() as f64, r.z() as f64);
    let p = w * a - x * b - y * c - z * d;
    ens!(0, (p >= 0.999) & (p <= 1.126));
    let p = w * b + x * a + y * d - z * c;
    ens!(1, (p >= -1e-5) & (p <= 1e-5));
    let p = w * c - x * d + y * a + z * b;
    ens!(2, (p >= -1e-5) & (p <= 1e-5));
    let p = w * d + x * c - y * b + z * a;
    ens!(3, (p >= -1e-5) & (p <= 1e-5));
}
fn vc__C28__inv_large(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 2e18) & below(x, 2e18) & below(y, 2e18) & below(z, 2e18));
    let n = norm2(&[w, x, y, z]);
    req!((n >= 1.0) & (n <= 1e36));
    let r = Quaternion::new(w, x, y, z).inv();
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c, d) = (r.w() as f64, r.x() as f64, r.y() as f64, r.z() as f64);
    let p = w * a - x * b - y * c - z * d;
    ens!(0, (p >= 0.999) & (p <= 1.126));
    let p = w * b + x * a + y * d - z * c;
    ens!(1, (p >= -1e-5) & (p <= 1e-5));
    let p = w * c - x * d + y * a + z * b;
    ens!(2, (p >= -1e-5) & (p <= 1e-5));
    let p = w * d + x * c - y * b + z * a;
    ens!(3, (p >= -1e-5) & (p <= 1e-5));
}
fn vc__C28__inv__panics(w: f32, x: f32, y: f32, z: f32) {
    let q = Quaternion::new(w, x, y, z);
    req!(q.norm() == 0.0);
    let r = q.inv();
    ens!(0, (r.w() == r.w()) & (r.w() != r.w()));
}
fn vc__C28__normalize__panics(w: f32, x: f32, y: f32, z: f32) {
    let q = Quaternion::new(w, x, y, z);
    req!(q.norm() == 0.0);
    let r = q.normalize();
    ens!(0, (r.w() == r.w()) & (r.w() != r.w()));
}
fn vc__C28__returns(w: f32, x: f32, y: f32, z: f32) {
    let q = Quaternion::new(w, x, y, z);
    req!(q.norm() != 0.0);
    let (r, s) = (q.inv(), q.normalize());
    ens!(0, same(r.w(), r.w()) & same(s.w(), s.w()));
}
fn vc__C28__axis_angle(x: f32, y: f32, z: f32, t: f32) {
    let q = Quaternion::axis_angle(Vector3d { x, y, z }, t);
    let h = F32(t * 0.5);
    ens!(0, same(q.w(), h.cos().0));
    ens!(1, same(q.x(), x * h.sin().0));
    ens!(2, same(q.y(), y * h.sin().0));
    ens!(3, same(q.z(), z * h.sin().0));
}
fn vc__C28__axis_angle_int(x: i16, y: i16, z: i16, t: i16) {
    let q = Quaternion::axis_angle(Vector3d { x, y, z }, t);
    let h = F32(t as f32 * 0.5);
    ens!(0, same(q.w(), h.cos().0));
    ens!(1, same(q.x(), x as f32 * h.sin().0));
    ens!(2, same(q.y(), y as f32 * h.sin().0));
    ens!(3, same(q.z(), z as f32 * h.sin().0));
}
fn vc__C30__roll(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 1e18) & below(x, 1e18) & below(y, 1e18) & below(z, 1e18));
    let r = Quaternion::new(w, x, y, z).to_euler().0;
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (s, es) = twice(&[w * x, y * z]);
    let (c, ec) = twice(&[0.5, -(x * x), -(y * y)]);
    ens!(0, refs::of_atan2(r, s, es, c, ec));
}
fn vc__C30__pitch(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 1e18) & below(x, 1e18) & below(y, 1e18) & below(z, 1e18));
    let r = Quaternion::new(w, x, y, z).to_euler().1;
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (s, e) = twice(&[w * y, -(x * z)]);
    let c = if s > 1.0 { 1.0 } else if s < -1.0 { -1.0 } else { s };
    ens!(0, refs::of_asin(r, c, e));
    // in the domain of asin, so it is not NaN by the contract of asin
    ens!(1, refs::of_asin(r, 0.0, 1.0));
}
fn vc__C30__yaw(w: f32, x: f32, y: f32, z: f32) {
    req!(below(w, 1e18) & below(x, 1e18) & below(y, 1e18) & below(z, 1e18));
    let r = Quaternion::new(w, x, y, z).to_euler().2;
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (s, es) = twice(&[w * z, x * y]);
    let (c, ec) = twice(&[0.5, -(y * y), -(z * z)]);
    ens!(0, refs::of_atan2(r, s, es, c, ec));
}
}
