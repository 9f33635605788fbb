//! Contracts of the vector types for every component type (C22, C24, C23 for integers).
//! Written by tools/gen_vector.py.
use crate::exact::nan;
use crate::{ens, req, vcs};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};

#[inline(always)]
fn same(a: f32, b: f32) -> bool {
    (nan(a) & nan(b)) | (a.to_bits() == b.to_bits())
}
/// the items of s, from an iterator that does not say how many there are
#[inline(always)]
fn unhinted<C: Copy>(s: &[C]) -> impl Iterator<Item = C> + '_ {
    let mut i = 0;
    core::iter::from_fn(move || {
        let r = s.get(i).copied();
        i += 1;
        r
    })
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_i8(op: u8, a: i8, b: i8, c: i8, k: i8) -> Option<i8> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_i16(op: u8, a: i16, b: i16, c: i16, k: i16) -> Option<i16> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_i32(op: u8, a: i32, b: i32, c: i32, k: i32) -> Option<i32> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_u8(op: u8, a: u8, b: u8, c: u8, k: u8) -> Option<u8> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_u16(op: u8, a: u16, b: u16, c: u16, k: u16) -> Option<u16> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_u32(op: u8, a: u32, b: u32, c: u32, k: u32) -> Option<u32> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}

#[inline(always)]
fn op_f32(op: u8, a: f32, b: f32, c: f32, k: f32) -> f32 {
    if op <= 1 {
        a + b
    } else if op <= 3 {
        a - b
    } else if op <= 6 {
        a * k
    } else if op <= 8 {
        a / k
    } else if op <= 10 {
        0.0 + a + b + c
    } else if op == 11 {
        0.0 + a
    } else if op == 12 {
        0.0
    } else {
        0.0 + a + b
    }
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_i8(t: &[i32]) -> bool {
    let mut s: i32 = 0;
    for x in t {
        if (*x > i8::MAX as i32) | (*x < -(i8::MAX as i32)) {
            return false;
        }
        let a = if *x < 0 { x.wrapping_neg() } else { *x };
        s = s.wrapping_add(a);
    }
    s <= i8::MAX as i32
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_i16(t: &[i32]) -> bool {
    let mut s: i32 = 0;
    for x in t {
        if (*x > i16::MAX as i32) | (*x < -(i16::MAX as i32)) {
            return false;
        }
        let a = if *x < 0 { x.wrapping_neg() } else { *x };
        s = s.wrapping_add(a);
    }
    s <= i16::MAX as i32
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_i32(t: &[i64]) -> bool {
    let mut s: i64 = 0;
    for x in t {
        if (*x > i32::MAX as i64) | (*x < -(i32::MAX as i64)) {
            return false;
        }
        let a = if *x < 0 { x.wrapping_neg() } else { *x };
        s = s.wrapping_add(a);
    }
    s <= i32::MAX as i64
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_u8(t: &[u32]) -> bool {
    let mut s: u32 = 0;
    for x in t {
        if (*x > u8::MAX as u32) {
            return false;
        }
        let a = *x;
        s = s.wrapping_add(a);
    }
    s <= u8::MAX as u32
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_u16(t: &[u32]) -> bool {
    let mut s: u32 = 0;
    for x in t {
        if (*x > u16::MAX as u32) {
            return false;
        }
        let a = *x;
        s = s.wrapping_add(a);
    }
    s <= u16::MAX as u32
}

/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_u32(t: &[u64]) -> bool {
    let mut s: u64 = 0;
    for x in t {
        if (*x > u32::MAX as u64) {
            return false;
        }
        let a = *x;
        s = s.wrapping_add(a);
    }
    s <= u32::MAX as u64
}

/// r differs from the sum of the terms by at most 5e-7 of the sum of their magnitudes (1e-40 for underflow)
#[inline(always)]
fn sums(r: f32, t: &[f64]) -> bool {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    let d = r as f64 - s;
    let e = 5e-7 * m + 1e-40;
    (d <= e) & (d >= -e)
}
#[inline(always)]
pub fn below(x: f32, m: f32) -> bool {
    (x >= -m) & (x <= m)
}

#[inline(always)]
fn sq(x: f64) -> f64 {
    x * x
}
/// r differs from the sum of the terms by at most 2e-6 of the sum of their magnitudes (1e-30 for underflow)
#[inline(always)]
fn turned(r: f32, t: &[f64]) -> bool {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    let d = r as f64 - s;
    let e = 2e-6 * m + 1e-30;
    (d <= e) & (d >= -e)
}
/// a*d and b*c agree up to rounding
#[inline(always)]
pub fn parallel(a: f32, b: f32, c: f32, d: f32) -> bool {
    let (p, q) = (a as f64 * d as f64, b as f64 * c as f64);
    let e = 1e-6 * (p.abs() + q.abs()) + 1e-24;
    (p - q <= e) & (p - q >= -e)
}

vcs! {
fn vc__C22__i8x2(ax: i8, ay: i8, bx: i8, by: i8, cx: i8, cy: i8, k: i8, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i8(op, ax, bx, cx, k);
    let ey = op_i8(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__i8x2__panics(ax: i8, ay: i8, bx: i8, by: i8, cx: i8, cy: i8, k: i8, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i8(op, ax, bx, cx, k);
    let ey = op_i8(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__i8x3(ax: i8, ay: i8, az: i8, bx: i8, by: i8, bz: i8, cx: i8, cy: i8, cz: i8, k: i8, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i8(op, ax, bx, cx, k);
    let ey = op_i8(op, ay, by, cy, k);
    let ez = op_i8(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__i8x3__panics(ax: i8, ay: i8, az: i8, bx: i8, by: i8, bz: i8, cx: i8, cy: i8, cz: i8, k: i8, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i8(op, ax, bx, cx, k);
    let ey = op_i8(op, ay, by, cy, k);
    let ez = op_i8(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__i16x2(ax: i16, ay: i16, bx: i16, by: i16, cx: i16, cy: i16, k: i16, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i16(op, ax, bx, cx, k);
    let ey = op_i16(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__i16x2__panics(ax: i16, ay: i16, bx: i16, by: i16, cx: i16, cy: i16, k: i16, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i16(op, ax, bx, cx, k);
    let ey = op_i16(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__i16x3(ax: i16, ay: i16, az: i16, bx: i16, by: i16, bz: i16, cx: i16, cy: i16, cz: i16, k: i16, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i16(op, ax, bx, cx, k);
    let ey = op_i16(op, ay, by, cy, k);
    let ez = op_i16(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__i16x3__panics(ax: i16, ay: i16, az: i16, bx: i16, by: i16, bz: i16, cx: i16, cy: i16, cz: i16, k: i16, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i16(op, ax, bx, cx, k);
    let ey = op_i16(op, ay, by, cy, k);
    let ez = op_i16(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__i32x2(ax: i32, ay: i32, bx: i32, by: i32, cx: i32, cy: i32, k: i32, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i32(op, ax, bx, cx, k);
    let ey = op_i32(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__i32x2__panics(ax: i32, ay: i32, bx: i32, by: i32, cx: i32, cy: i32, k: i32, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_i32(op, ax, bx, cx, k);
    let ey = op_i32(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__i32x3(ax: i32, ay: i32, az: i32, bx: i32, by: i32, bz: i32, cx: i32, cy: i32, cz: i32, k: i32, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i32(op, ax, bx, cx, k);
    let ey = op_i32(op, ay, by, cy, k);
    let ez = op_i32(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__i32x3__panics(ax: i32, ay: i32, az: i32, bx: i32, by: i32, bz: i32, cx: i32, cy: i32, cz: i32, k: i32, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_i32(op, ax, bx, cx, k);
    let ey = op_i32(op, ay, by, cy, k);
    let ez = op_i32(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u8x2(ax: u8, ay: u8, bx: u8, by: u8, cx: u8, cy: u8, k: u8, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u8(op, ax, bx, cx, k);
    let ey = op_u8(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__u8x2__panics(ax: u8, ay: u8, bx: u8, by: u8, cx: u8, cy: u8, k: u8, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u8(op, ax, bx, cx, k);
    let ey = op_u8(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u8x3(ax: u8, ay: u8, az: u8, bx: u8, by: u8, bz: u8, cx: u8, cy: u8, cz: u8, k: u8, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u8(op, ax, bx, cx, k);
    let ey = op_u8(op, ay, by, cy, k);
    let ez = op_u8(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__u8x3__panics(ax: u8, ay: u8, az: u8, bx: u8, by: u8, bz: u8, cx: u8, cy: u8, cz: u8, k: u8, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u8(op, ax, bx, cx, k);
    let ey = op_u8(op, ay, by, cy, k);
    let ez = op_u8(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u16x2(ax: u16, ay: u16, bx: u16, by: u16, cx: u16, cy: u16, k: u16, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u16(op, ax, bx, cx, k);
    let ey = op_u16(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__u16x2__panics(ax: u16, ay: u16, bx: u16, by: u16, cx: u16, cy: u16, k: u16, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u16(op, ax, bx, cx, k);
    let ey = op_u16(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u16x3(ax: u16, ay: u16, az: u16, bx: u16, by: u16, bz: u16, cx: u16, cy: u16, cz: u16, k: u16, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u16(op, ax, bx, cx, k);
    let ey = op_u16(op, ay, by, cy, k);
    let ez = op_u16(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__u16x3__panics(ax: u16, ay: u16, az: u16, bx: u16, by: u16, bz: u16, cx: u16, cy: u16, cz: u16, k: u16, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u16(op, ax, bx, cx, k);
    let ey = op_u16(op, ay, by, cy, k);
    let ez = op_u16(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u32x2(ax: u32, ay: u32, bx: u32, by: u32, cx: u32, cy: u32, k: u32, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u32(op, ax, bx, cx, k);
    let ey = op_u32(op, ay, by, cy, k);
    req!((ex.is_some()) & (ey.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
}
fn vc__C22__u32x2__panics(ax: u32, ay: u32, bx: u32, by: u32, cx: u32, cy: u32, k: u32, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let ex = op_u32(op, ax, bx, cx, k);
    let ey = op_u32(op, ay, by, cy, k);
    req!((ex.is_none()) | (ey.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__u32x3(ax: u32, ay: u32, az: u32, bx: u32, by: u32, bz: u32, cx: u32, cy: u32, cz: u32, k: u32, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u32(op, ax, bx, cx, k);
    let ey = op_u32(op, ay, by, cy, k);
    let ez = op_u32(op, az, bz, cz, k);
    req!((ex.is_some()) & (ey.is_some()) & (ez.is_some()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, Some(r.x) == ex);
    ens!(1, Some(r.y) == ey);
    ens!(2, Some(r.z) == ez);
}
fn vc__C22__u32x3__panics(ax: u32, ay: u32, az: u32, bx: u32, by: u32, bz: u32, cx: u32, cy: u32, cz: u32, k: u32, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let ex = op_u32(op, ax, bx, cx, k);
    let ey = op_u32(op, ay, by, cy, k);
    let ez = op_u32(op, az, bz, cz, k);
    req!((ex.is_none()) | (ey.is_none()) | (ez.is_none()));
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, (r.x == 0) & (r.x != 0));
}
fn vc__C22__f32x2(ax: f32, ay: f32, bx: f32, by: f32, cx: f32, cy: f32, k: f32, op: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let c = Vector2d { x: cx, y: cy };
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, same(r.x, op_f32(op, ax, bx, cx, k)));
    ens!(1, same(r.y, op_f32(op, ay, by, cy, k)));
}
fn vc__C22__f32x3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32, cx: f32, cy: f32, cz: f32, k: f32, op: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let c = Vector3d { x: cx, y: cy, z: cz };
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * k
    } else if op == 5 {
        k * a
    } else if op == 6 {
        let mut v = a;
        v *= k;
        v
    } else if op == 7 {
        a / k
    } else if op == 8 {
        let mut v = a;
        v /= k;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, same(r.x, op_f32(op, ax, bx, cx, k)));
    ens!(1, same(r.y, op_f32(op, ay, by, cy, k)));
    ens!(2, same(r.z, op_f32(op, az, bz, cz, k)));
}
fn vc__C22__wx2(ax: f32, ay: f32, bx: f32, by: f32, cx: f32, cy: f32, k: f32, op: u8) {
    let a = Vector2d { x: F32(ax), y: F32(ay) };
    let b = Vector2d { x: F32(bx), y: F32(by) };
    let c = Vector2d { x: F32(cx), y: F32(cy) };
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * F32(k)
    } else if op == 5 {
        F32(k) * a
    } else if op == 6 {
        let mut v = a;
        v *= F32(k);
        v
    } else if op == 7 {
        a / F32(k)
    } else if op == 8 {
        let mut v = a;
        v /= F32(k);
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, same(r.x.0, op_f32(op, ax, bx, cx, k)));
    ens!(1, same(r.y.0, op_f32(op, ay, by, cy, k)));
}
fn vc__C22__wx3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32, cx: f32, cy: f32, cz: f32, k: f32, op: u8) {
    let a = Vector3d { x: F32(ax), y: F32(ay), z: F32(az) };
    let b = Vector3d { x: F32(bx), y: F32(by), z: F32(bz) };
    let c = Vector3d { x: F32(cx), y: F32(cy), z: F32(cz) };
    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * F32(k)
    } else if op == 5 {
        F32(k) * a
    } else if op == 6 {
        let mut v = a;
        v *= F32(k);
        v
    } else if op == 7 {
        a / F32(k)
    } else if op == 8 {
        let mut v = a;
        v /= F32(k);
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
    ens!(0, same(r.x.0, op_f32(op, ax, bx, cx, k)));
    ens!(1, same(r.y.0, op_f32(op, ay, by, cy, k)));
    ens!(2, same(r.z.0, op_f32(op, az, bz, cz, k)));
}
fn vc__C23__dot_i8x2(ax: i8, ay: i8, bx: i8, by: i8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_i8(&[(ax as i32).wrapping_mul((bx as i32)), (ay as i32).wrapping_mul((by as i32))]));
    let e = (ax as i32).wrapping_mul((bx as i32)).wrapping_add((ay as i32).wrapping_mul((by as i32)));
    ens!(0, a.dot(b) as i32 == e);
    ens!(1, Vector::dot(a, b) as i32 == e);
}
fn vc__C23__sq_i8x2(ax: i8, ay: i8) {
    let a = Vector2d { x: ax, y: ay };
    req!((((ax as i32).wrapping_mul((ax as i32)) >= 0) & ((ax as i32).wrapping_mul((ax as i32)) <= i8::MAX as i32)) & (((ay as i32).wrapping_mul((ay as i32)) >= 0) & ((ay as i32).wrapping_mul((ay as i32)) <= i8::MAX as i32)) & ((ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))) <= i8::MAX as i32));
    ens!(0, a.magnitude_sq() as i32 == (ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))));
}
fn vc__C23__cross_i8x2(ax: i8, ay: i8, bx: i8, by: i8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as i32).wrapping_mul((by as i32)), (ay as i32).wrapping_mul((bx as i32)));
    req!(fits_i8(&[p0, m0]));
    ens!(0, a.perpendicular_dot(b) as i32 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as i32 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_i8x3(ax: i8, ay: i8, az: i8, bx: i8, by: i8, bz: i8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_i8(&[(ax as i32).wrapping_mul((bx as i32)), (ay as i32).wrapping_mul((by as i32)), (az as i32).wrapping_mul((bz as i32))]));
    let e = (ax as i32).wrapping_mul((bx as i32)).wrapping_add((ay as i32).wrapping_mul((by as i32))).wrapping_add((az as i32).wrapping_mul((bz as i32)));
    ens!(0, a.dot(b) as i32 == e);
    ens!(1, Vector::dot(a, b) as i32 == e);
}
fn vc__C23__sq_i8x3(ax: i8, ay: i8, az: i8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!((((ax as i32).wrapping_mul((ax as i32)) >= 0) & ((ax as i32).wrapping_mul((ax as i32)) <= i8::MAX as i32)) & (((ay as i32).wrapping_mul((ay as i32)) >= 0) & ((ay as i32).wrapping_mul((ay as i32)) <= i8::MAX as i32)) & (((az as i32).wrapping_mul((az as i32)) >= 0) & ((az as i32).wrapping_mul((az as i32)) <= i8::MAX as i32)) & ((ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))).wrapping_add((az as i32).wrapping_mul((az as i32))) <= i8::MAX as i32));
    ens!(0, a.magnitude_sq() as i32 == (ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))).wrapping_add((az as i32).wrapping_mul((az as i32))));
}
fn vc__C23__cross_i8x3(ax: i8, ay: i8, az: i8, bx: i8, by: i8, bz: i8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as i32).wrapping_mul((bz as i32)), (az as i32).wrapping_mul((by as i32)));
    req!(fits_i8(&[p0, m0]));
    let (p1, m1) = ((az as i32).wrapping_mul((bx as i32)), (ax as i32).wrapping_mul((bz as i32)));
    req!(fits_i8(&[p1, m1]));
    let (p2, m2) = ((ax as i32).wrapping_mul((by as i32)), (ay as i32).wrapping_mul((bx as i32)));
    req!(fits_i8(&[p2, m2]));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as i32 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as i32 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as i32 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__dot_i16x2(ax: i16, ay: i16, bx: i16, by: i16) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_i16(&[(ax as i32).wrapping_mul((bx as i32)), (ay as i32).wrapping_mul((by as i32))]));
    let e = (ax as i32).wrapping_mul((bx as i32)).wrapping_add((ay as i32).wrapping_mul((by as i32)));
    ens!(0, a.dot(b) as i32 == e);
    ens!(1, Vector::dot(a, b) as i32 == e);
}
fn vc__C23__sq_i16x2(ax: i16, ay: i16) {
    let a = Vector2d { x: ax, y: ay };
    req!((((ax as i32).wrapping_mul((ax as i32)) >= 0) & ((ax as i32).wrapping_mul((ax as i32)) <= i16::MAX as i32)) & (((ay as i32).wrapping_mul((ay as i32)) >= 0) & ((ay as i32).wrapping_mul((ay as i32)) <= i16::MAX as i32)) & ((ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))) <= i16::MAX as i32));
    ens!(0, a.magnitude_sq() as i32 == (ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))));
}
fn vc__C23__cross_i16x2(ax: i16, ay: i16, bx: i16, by: i16) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as i32).wrapping_mul((by as i32)), (ay as i32).wrapping_mul((bx as i32)));
    req!(fits_i16(&[p0, m0]));
    ens!(0, a.perpendicular_dot(b) as i32 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as i32 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_i16x3(ax: i16, ay: i16, az: i16, bx: i16, by: i16, bz: i16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_i16(&[(ax as i32).wrapping_mul((bx as i32)), (ay as i32).wrapping_mul((by as i32)), (az as i32).wrapping_mul((bz as i32))]));
    let e = (ax as i32).wrapping_mul((bx as i32)).wrapping_add((ay as i32).wrapping_mul((by as i32))).wrapping_add((az as i32).wrapping_mul((bz as i32)));
    ens!(0, a.dot(b) as i32 == e);
    ens!(1, Vector::dot(a, b) as i32 == e);
}
fn vc__C23__sq_i16x3(ax: i16, ay: i16, az: i16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!((((ax as i32).wrapping_mul((ax as i32)) >= 0) & ((ax as i32).wrapping_mul((ax as i32)) <= i16::MAX as i32)) & (((ay as i32).wrapping_mul((ay as i32)) >= 0) & ((ay as i32).wrapping_mul((ay as i32)) <= i16::MAX as i32)) & (((az as i32).wrapping_mul((az as i32)) >= 0) & ((az as i32).wrapping_mul((az as i32)) <= i16::MAX as i32)) & ((ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))).wrapping_add((az as i32).wrapping_mul((az as i32))) <= i16::MAX as i32));
    ens!(0, a.magnitude_sq() as i32 == (ax as i32).wrapping_mul((ax as i32)).wrapping_add((ay as i32).wrapping_mul((ay as i32))).wrapping_add((az as i32).wrapping_mul((az as i32))));
}
fn vc__C23__cross_i16x3(ax: i16, ay: i16, az: i16, bx: i16, by: i16, bz: i16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as i32).wrapping_mul((bz as i32)), (az as i32).wrapping_mul((by as i32)));
    req!(fits_i16(&[p0, m0]));
    let (p1, m1) = ((az as i32).wrapping_mul((bx as i32)), (ax as i32).wrapping_mul((bz as i32)));
    req!(fits_i16(&[p1, m1]));
    let (p2, m2) = ((ax as i32).wrapping_mul((by as i32)), (ay as i32).wrapping_mul((bx as i32)));
    req!(fits_i16(&[p2, m2]));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as i32 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as i32 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as i32 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__dot_i32x2(ax: i32, ay: i32, bx: i32, by: i32) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_i32(&[(ax as i64).wrapping_mul((bx as i64)), (ay as i64).wrapping_mul((by as i64))]));
    let e = (ax as i64).wrapping_mul((bx as i64)).wrapping_add((ay as i64).wrapping_mul((by as i64)));
    ens!(0, a.dot(b) as i64 == e);
    ens!(1, Vector::dot(a, b) as i64 == e);
}
fn vc__C23__sq_i32x2(ax: i32, ay: i32) {
    let a = Vector2d { x: ax, y: ay };
    req!((((ax as i64).wrapping_mul((ax as i64)) >= 0) & ((ax as i64).wrapping_mul((ax as i64)) <= i32::MAX as i64)) & (((ay as i64).wrapping_mul((ay as i64)) >= 0) & ((ay as i64).wrapping_mul((ay as i64)) <= i32::MAX as i64)) & ((ax as i64).wrapping_mul((ax as i64)).wrapping_add((ay as i64).wrapping_mul((ay as i64))) <= i32::MAX as i64));
    ens!(0, a.magnitude_sq() as i64 == (ax as i64).wrapping_mul((ax as i64)).wrapping_add((ay as i64).wrapping_mul((ay as i64))));
}
fn vc__C23__cross_i32x2(ax: i32, ay: i32, bx: i32, by: i32) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as i64).wrapping_mul((by as i64)), (ay as i64).wrapping_mul((bx as i64)));
    req!(fits_i32(&[p0, m0]));
    ens!(0, a.perpendicular_dot(b) as i64 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as i64 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_i32x3(ax: i32, ay: i32, az: i32, bx: i32, by: i32, bz: i32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_i32(&[(ax as i64).wrapping_mul((bx as i64)), (ay as i64).wrapping_mul((by as i64)), (az as i64).wrapping_mul((bz as i64))]));
    let e = (ax as i64).wrapping_mul((bx as i64)).wrapping_add((ay as i64).wrapping_mul((by as i64))).wrapping_add((az as i64).wrapping_mul((bz as i64)));
    ens!(0, a.dot(b) as i64 == e);
    ens!(1, Vector::dot(a, b) as i64 == e);
}
fn vc__C23__sq_i32x3(ax: i32, ay: i32, az: i32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!((((ax as i64).wrapping_mul((ax as i64)) >= 0) & ((ax as i64).wrapping_mul((ax as i64)) <= i32::MAX as i64)) & (((ay as i64).wrapping_mul((ay as i64)) >= 0) & ((ay as i64).wrapping_mul((ay as i64)) <= i32::MAX as i64)) & (((az as i64).wrapping_mul((az as i64)) >= 0) & ((az as i64).wrapping_mul((az as i64)) <= i32::MAX as i64)) & ((ax as i64).wrapping_mul((ax as i64)).wrapping_add((ay as i64).wrapping_mul((ay as i64))).wrapping_add((az as i64).wrapping_mul((az as i64))) <= i32::MAX as i64));
    ens!(0, a.magnitude_sq() as i64 == (ax as i64).wrapping_mul((ax as i64)).wrapping_add((ay as i64).wrapping_mul((ay as i64))).wrapping_add((az as i64).wrapping_mul((az as i64))));
}
fn vc__C23__cross_i32x3(ax: i32, ay: i32, az: i32, bx: i32, by: i32, bz: i32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as i64).wrapping_mul((bz as i64)), (az as i64).wrapping_mul((by as i64)));
    req!(fits_i32(&[p0, m0]));
    let (p1, m1) = ((az as i64).wrapping_mul((bx as i64)), (ax as i64).wrapping_mul((bz as i64)));
    req!(fits_i32(&[p1, m1]));
    let (p2, m2) = ((ax as i64).wrapping_mul((by as i64)), (ay as i64).wrapping_mul((bx as i64)));
    req!(fits_i32(&[p2, m2]));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as i64 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as i64 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as i64 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__dot_u8x2(ax: u8, ay: u8, bx: u8, by: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_u8(&[(ax as u32).wrapping_mul((bx as u32)), (ay as u32).wrapping_mul((by as u32))]));
    let e = (ax as u32).wrapping_mul((bx as u32)).wrapping_add((ay as u32).wrapping_mul((by as u32)));
    ens!(0, a.dot(b) as u32 == e);
    ens!(1, Vector::dot(a, b) as u32 == e);
}
fn vc__C23__sq_u8x2(ax: u8, ay: u8) {
    let a = Vector2d { x: ax, y: ay };
    req!(fits_u8(&[(ax as u32).wrapping_mul((ax as u32)), (ay as u32).wrapping_mul((ay as u32))]));
    ens!(0, a.magnitude_sq() as u32 == (ax as u32).wrapping_mul((ax as u32)).wrapping_add((ay as u32).wrapping_mul((ay as u32))));
}
fn vc__C23__cross_u8x2(ax: u8, ay: u8, bx: u8, by: u8) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as u32).wrapping_mul((by as u32)), (ay as u32).wrapping_mul((bx as u32)));
    req!((p0 <= u8::MAX as u32) & (m0 <= p0));
    ens!(0, a.perpendicular_dot(b) as u32 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as u32 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_u8x3(ax: u8, ay: u8, az: u8, bx: u8, by: u8, bz: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_u8(&[(ax as u32).wrapping_mul((bx as u32)), (ay as u32).wrapping_mul((by as u32)), (az as u32).wrapping_mul((bz as u32))]));
    let e = (ax as u32).wrapping_mul((bx as u32)).wrapping_add((ay as u32).wrapping_mul((by as u32))).wrapping_add((az as u32).wrapping_mul((bz as u32)));
    ens!(0, a.dot(b) as u32 == e);
    ens!(1, Vector::dot(a, b) as u32 == e);
}
fn vc__C23__sq_u8x3(ax: u8, ay: u8, az: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!(fits_u8(&[(ax as u32).wrapping_mul((ax as u32)), (ay as u32).wrapping_mul((ay as u32)), (az as u32).wrapping_mul((az as u32))]));
    ens!(0, a.magnitude_sq() as u32 == (ax as u32).wrapping_mul((ax as u32)).wrapping_add((ay as u32).wrapping_mul((ay as u32))).wrapping_add((az as u32).wrapping_mul((az as u32))));
}
fn vc__C23__cross_u8x3(ax: u8, ay: u8, az: u8, bx: u8, by: u8, bz: u8) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as u32).wrapping_mul((bz as u32)), (az as u32).wrapping_mul((by as u32)));
    req!((p0 <= u8::MAX as u32) & (m0 <= p0));
    let (p1, m1) = ((az as u32).wrapping_mul((bx as u32)), (ax as u32).wrapping_mul((bz as u32)));
    req!((p1 <= u8::MAX as u32) & (m1 <= p1));
    let (p2, m2) = ((ax as u32).wrapping_mul((by as u32)), (ay as u32).wrapping_mul((bx as u32)));
    req!((p2 <= u8::MAX as u32) & (m2 <= p2));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as u32 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as u32 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as u32 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__dot_u16x2(ax: u16, ay: u16, bx: u16, by: u16) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_u16(&[(ax as u32).wrapping_mul((bx as u32)), (ay as u32).wrapping_mul((by as u32))]));
    let e = (ax as u32).wrapping_mul((bx as u32)).wrapping_add((ay as u32).wrapping_mul((by as u32)));
    ens!(0, a.dot(b) as u32 == e);
    ens!(1, Vector::dot(a, b) as u32 == e);
}
fn vc__C23__sq_u16x2(ax: u16, ay: u16) {
    let a = Vector2d { x: ax, y: ay };
    req!(fits_u16(&[(ax as u32).wrapping_mul((ax as u32)), (ay as u32).wrapping_mul((ay as u32))]));
    ens!(0, a.magnitude_sq() as u32 == (ax as u32).wrapping_mul((ax as u32)).wrapping_add((ay as u32).wrapping_mul((ay as u32))));
}
fn vc__C23__cross_u16x2(ax: u16, ay: u16, bx: u16, by: u16) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as u32).wrapping_mul((by as u32)), (ay as u32).wrapping_mul((bx as u32)));
    req!((p0 <= u16::MAX as u32) & (m0 <= p0));
    ens!(0, a.perpendicular_dot(b) as u32 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as u32 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_u16x3(ax: u16, ay: u16, az: u16, bx: u16, by: u16, bz: u16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_u16(&[(ax as u32).wrapping_mul((bx as u32)), (ay as u32).wrapping_mul((by as u32)), (az as u32).wrapping_mul((bz as u32))]));
    let e = (ax as u32).wrapping_mul((bx as u32)).wrapping_add((ay as u32).wrapping_mul((by as u32))).wrapping_add((az as u32).wrapping_mul((bz as u32)));
    ens!(0, a.dot(b) as u32 == e);
    ens!(1, Vector::dot(a, b) as u32 == e);
}
fn vc__C23__sq_u16x3(ax: u16, ay: u16, az: u16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!(fits_u16(&[(ax as u32).wrapping_mul((ax as u32)), (ay as u32).wrapping_mul((ay as u32)), (az as u32).wrapping_mul((az as u32))]));
    ens!(0, a.magnitude_sq() as u32 == (ax as u32).wrapping_mul((ax as u32)).wrapping_add((ay as u32).wrapping_mul((ay as u32))).wrapping_add((az as u32).wrapping_mul((az as u32))));
}
fn vc__C23__cross_u16x3(ax: u16, ay: u16, az: u16, bx: u16, by: u16, bz: u16) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as u32).wrapping_mul((bz as u32)), (az as u32).wrapping_mul((by as u32)));
    req!((p0 <= u16::MAX as u32) & (m0 <= p0));
    let (p1, m1) = ((az as u32).wrapping_mul((bx as u32)), (ax as u32).wrapping_mul((bz as u32)));
    req!((p1 <= u16::MAX as u32) & (m1 <= p1));
    let (p2, m2) = ((ax as u32).wrapping_mul((by as u32)), (ay as u32).wrapping_mul((bx as u32)));
    req!((p2 <= u16::MAX as u32) & (m2 <= p2));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as u32 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as u32 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as u32 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__dot_u32x2(ax: u32, ay: u32, bx: u32, by: u32) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    req!(fits_u32(&[(ax as u64).wrapping_mul((bx as u64)), (ay as u64).wrapping_mul((by as u64))]));
    let e = (ax as u64).wrapping_mul((bx as u64)).wrapping_add((ay as u64).wrapping_mul((by as u64)));
    ens!(0, a.dot(b) as u64 == e);
    ens!(1, Vector::dot(a, b) as u64 == e);
}
fn vc__C23__sq_u32x2(ax: u32, ay: u32) {
    let a = Vector2d { x: ax, y: ay };
    req!(fits_u32(&[(ax as u64).wrapping_mul((ax as u64)), (ay as u64).wrapping_mul((ay as u64))]));
    ens!(0, a.magnitude_sq() as u64 == (ax as u64).wrapping_mul((ax as u64)).wrapping_add((ay as u64).wrapping_mul((ay as u64))));
}
fn vc__C23__cross_u32x2(ax: u32, ay: u32, bx: u32, by: u32) {
    let a = Vector2d { x: ax, y: ay };
    let b = Vector2d { x: bx, y: by };
    let (p0, m0) = ((ax as u64).wrapping_mul((by as u64)), (ay as u64).wrapping_mul((bx as u64)));
    req!((p0 <= u32::MAX as u64) & (m0 <= p0));
    ens!(0, a.perpendicular_dot(b) as u64 == p0.wrapping_sub(m0));
    let c = a.cross(b);
    let d = a * b;
    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as u64 == p0.wrapping_sub(m0)));
    ens!(2, c == d);
}
fn vc__C23__dot_u32x3(ax: u32, ay: u32, az: u32, bx: u32, by: u32, bz: u32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    req!(fits_u32(&[(ax as u64).wrapping_mul((bx as u64)), (ay as u64).wrapping_mul((by as u64)), (az as u64).wrapping_mul((bz as u64))]));
    let e = (ax as u64).wrapping_mul((bx as u64)).wrapping_add((ay as u64).wrapping_mul((by as u64))).wrapping_add((az as u64).wrapping_mul((bz as u64)));
    ens!(0, a.dot(b) as u64 == e);
    ens!(1, Vector::dot(a, b) as u64 == e);
}
fn vc__C23__sq_u32x3(ax: u32, ay: u32, az: u32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    req!(fits_u32(&[(ax as u64).wrapping_mul((ax as u64)), (ay as u64).wrapping_mul((ay as u64)), (az as u64).wrapping_mul((az as u64))]));
    ens!(0, a.magnitude_sq() as u64 == (ax as u64).wrapping_mul((ax as u64)).wrapping_add((ay as u64).wrapping_mul((ay as u64))).wrapping_add((az as u64).wrapping_mul((az as u64))));
}
fn vc__C23__cross_u32x3(ax: u32, ay: u32, az: u32, bx: u32, by: u32, bz: u32) {
    let a = Vector3d { x: ax, y: ay, z: az };
    let b = Vector3d { x: bx, y: by, z: bz };
    let (p0, m0) = ((ay as u64).wrapping_mul((bz as u64)), (az as u64).wrapping_mul((by as u64)));
    req!((p0 <= u32::MAX as u64) & (m0 <= p0));
    let (p1, m1) = ((az as u64).wrapping_mul((bx as u64)), (ax as u64).wrapping_mul((bz as u64)));
    req!((p1 <= u32::MAX as u64) & (m1 <= p1));
    let (p2, m2) = ((ax as u64).wrapping_mul((by as u64)), (ay as u64).wrapping_mul((bx as u64)));
    req!((p2 <= u32::MAX as u64) & (m2 <= p2));
    let c = a.cross(b);
    let d = a * b;
    ens!(0, (c.x as u64 == p0.wrapping_sub(m0)) & (d.x == c.x));
    ens!(1, (c.y as u64 == p1.wrapping_sub(m1)) & (d.y == c.y));
    ens!(2, (c.z as u64 == p2.wrapping_sub(m2)) & (d.z == c.z));
}
fn vc__C23__wrapper_x2(ax: f32, ay: f32, bx: f32, by: f32) {
    let (a, b) = (Vector2d { x: ax, y: ay }, Vector2d { x: bx, y: by });
    let (p, q) = (Vector2d { x: F32(ax), y: F32(ay) }, Vector2d { x: F32(bx), y: F32(by) });
    ens!(0, same(p.dot(q).0, a.dot(b)) & same(Vector::dot(p, q).0, a.dot(b)) & same(Vector::dot(a, b), a.dot(b)));
    let (c, d, e, f) = (p.cross(q), p * q, a.cross(b), a * b);
    ens!(1, same(c.x.0, e.x) & same(d.x.0, e.x) & same(f.x, e.x));
    ens!(2, same(c.y.0, e.y) & same(d.y.0, e.y) & same(f.y, e.y));
    ens!(3, same(c.z.0, e.z) & same(d.z.0, e.z) & same(f.z, e.z));
    ens!(4, same(p.magnitude_sq().0, a.magnitude_sq()));
    ens!(5, same(p.perpendicular_dot(q).0, a.perpendicular_dot(b)));
}
fn vc__C23__wrapper_x3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32) {
    let (a, b) = (Vector3d { x: ax, y: ay, z: az }, Vector3d { x: bx, y: by, z: bz });
    let (p, q) = (Vector3d { x: F32(ax), y: F32(ay), z: F32(az) }, Vector3d { x: F32(bx), y: F32(by), z: F32(bz) });
    ens!(0, same(p.dot(q).0, a.dot(b)) & same(Vector::dot(p, q).0, a.dot(b)) & same(Vector::dot(a, b), a.dot(b)));
    let (c, d, e, f) = (p.cross(q), p * q, a.cross(b), a * b);
    ens!(1, same(c.x.0, e.x) & same(d.x.0, e.x) & same(f.x, e.x));
    ens!(2, same(c.y.0, e.y) & same(d.y.0, e.y) & same(f.y, e.y));
    ens!(3, same(c.z.0, e.z) & same(d.z.0, e.z) & same(f.z, e.z));
    ens!(4, same(p.magnitude_sq().0, a.magnitude_sq()));
}
fn vc__C23__f32x2(ax: f32, ay: f32, bx: f32, by: f32) {
    req!((below(ax, 1e18)) & (below(ay, 1e18)) & (below(bx, 1e18)) & (below(by, 1e18)));
    let (a, b) = (Vector2d { x: ax, y: ay }, Vector2d { x: bx, y: by });
    ens!(0, sums(a.dot(b), &[(ax as f64) * (bx as f64), (ay as f64) * (by as f64)]));
    ens!(1, sums(Vector::dot(a, b), &[(ax as f64) * (bx as f64), (ay as f64) * (by as f64)]));
    ens!(2, sums(a.magnitude_sq(), &[(ax as f64) * (ax as f64), (ay as f64) * (ay as f64)]));
    let (c, d) = (a.cross(b), a * b);
    ens!(3, sums(a.perpendicular_dot(b), &[(ax as f64) * (by as f64), -(ay as f64) * (bx as f64)]));
    ens!(4, (c.x == 0.0) & (c.y == 0.0) & (d.x == 0.0) & (d.y == 0.0) & sums(c.z, &[(ax as f64) * (by as f64), -(ay as f64) * (bx as f64)]) & sums(d.z, &[(ax as f64) * (by as f64), -(ay as f64) * (bx as f64)]));
}
fn vc__C23__f32x3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32) {
    req!((below(ax, 1e18)) & (below(ay, 1e18)) & (below(az, 1e18)) & (below(bx, 1e18)) & (below(by, 1e18)) & (below(bz, 1e18)));
    let (a, b) = (Vector3d { x: ax, y: ay, z: az }, Vector3d { x: bx, y: by, z: bz });
    ens!(0, sums(a.dot(b), &[(ax as f64) * (bx as f64), (ay as f64) * (by as f64), (az as f64) * (bz as f64)]));
    ens!(1, sums(Vector::dot(a, b), &[(ax as f64) * (bx as f64), (ay as f64) * (by as f64), (az as f64) * (bz as f64)]));
    ens!(2, sums(a.magnitude_sq(), &[(ax as f64) * (ax as f64), (ay as f64) * (ay as f64), (az as f64) * (az as f64)]));
    let (c, d) = (a.cross(b), a * b);
    ens!(3, sums(c.x, &[(ay as f64) * (bz as f64), -(az as f64) * (by as f64)]) & sums(d.x, &[(ay as f64) * (bz as f64), -(az as f64) * (by as f64)]));
    ens!(4, sums(c.y, &[(az as f64) * (bx as f64), -(ax as f64) * (bz as f64)]) & sums(d.y, &[(az as f64) * (bx as f64), -(ax as f64) * (bz as f64)]));
    ens!(5, sums(c.z, &[(ax as f64) * (by as f64), -(ay as f64) * (bx as f64)]) & sums(d.z, &[(ax as f64) * (by as f64), -(ay as f64) * (bx as f64)]));
}
fn vc__C24__conv_i8x2(px: i8, py: i8) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<i8>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<i8>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<i8> as Vector<i8>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<i8> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<i8> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (i8, i8) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [i8; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<i8> as Vector<i8>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector2d::<f32>::from(v);
    ens!(28, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()));
    let t = Vector3d::from(v);
    ens!(29, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<i8>>::default();
    ens!(30, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_i8x2(px: i8, py: i8) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<i8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i8>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_i8x2(px: i8, py: i8, bx: i8, by: i8) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i8x2(px: i8, py: i8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i8x2__panics(px: i8, py: i8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i8x2__panics(px: i8, py: i8, q0: i8, q1: i8, q2: i8, q3: i8, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<i8> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_i8x3(px: i8, py: i8, pz: i8) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<i8>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i8>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i8> as Vector<i8>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i8> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i8> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (i8, i8, i8) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [i8; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<i8> as Vector<i8>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = Vector3d::<f32>::from(v);
    ens!(32, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()) & (t.z.to_bits() == (pz as f32).to_bits()));
    let t = <Vector3d<i8>>::default();
    ens!(33, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_i8x3(px: i8, py: i8, pz: i8) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<i8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<i8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i8>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_i8x3(px: i8, py: i8, pz: i8, bx: i8, by: i8, bz: i8) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i8x3(px: i8, py: i8, pz: i8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i8x3__panics(px: i8, py: i8, pz: i8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i8x3__panics(px: i8, py: i8, pz: i8, q0: i8, q1: i8, q2: i8, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<i8> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_i16x2(px: i16, py: i16) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<i16>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<i16>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<i16> as Vector<i16>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<i16> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<i16> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (i16, i16) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [i16; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<i16> as Vector<i16>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector2d::<f32>::from(v);
    ens!(28, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()));
    let t = Vector3d::from(v);
    ens!(29, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<i16>>::default();
    ens!(30, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_i16x2(px: i16, py: i16) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<i16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i16>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_i16x2(px: i16, py: i16, bx: i16, by: i16) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i16x2(px: i16, py: i16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i16x2__panics(px: i16, py: i16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i16x2__panics(px: i16, py: i16, q0: i16, q1: i16, q2: i16, q3: i16, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<i16> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_i16x3(px: i16, py: i16, pz: i16) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<i16>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i16>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i16> as Vector<i16>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i16> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i16> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (i16, i16, i16) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [i16; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<i16> as Vector<i16>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = Vector3d::<f32>::from(v);
    ens!(32, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()) & (t.z.to_bits() == (pz as f32).to_bits()));
    let t = <Vector3d<i16>>::default();
    ens!(33, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_i16x3(px: i16, py: i16, pz: i16) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<i16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<i16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i16>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_i16x3(px: i16, py: i16, pz: i16, bx: i16, by: i16, bz: i16) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i16x3(px: i16, py: i16, pz: i16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i16x3__panics(px: i16, py: i16, pz: i16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i16x3__panics(px: i16, py: i16, pz: i16, q0: i16, q1: i16, q2: i16, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<i16> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_i32x2(px: i32, py: i32) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<i32>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<i32>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<i32> as Vector<i32>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<i32> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<i32> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (i32, i32) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [i32; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<i32> as Vector<i32>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector3d::from(v);
    ens!(28, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<i32>>::default();
    ens!(29, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_i32x2(px: i32, py: i32) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<i32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i32>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_i32x2(px: i32, py: i32, bx: i32, by: i32) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i32x2(px: i32, py: i32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i32x2__panics(px: i32, py: i32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i32x2__panics(px: i32, py: i32, q0: i32, q1: i32, q2: i32, q3: i32, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<i32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_i32x3(px: i32, py: i32, pz: i32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<i32>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i32>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i32> as Vector<i32>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i32> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<i32> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (i32, i32, i32) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [i32; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<i32> as Vector<i32>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<i32>>::default();
    ens!(32, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_i32x3(px: i32, py: i32, pz: i32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<i32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<i32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<i32>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_i32x3(px: i32, py: i32, pz: i32, bx: i32, by: i32, bz: i32) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_i32x3(px: i32, py: i32, pz: i32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_i32x3__panics(px: i32, py: i32, pz: i32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_i32x3__panics(px: i32, py: i32, pz: i32, q0: i32, q1: i32, q2: i32, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<i32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u8x2(px: u8, py: u8) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<u8>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<u8>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<u8> as Vector<u8>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<u8> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<u8> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (u8, u8) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [u8; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<u8> as Vector<u8>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector2d::<f32>::from(v);
    ens!(28, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()));
    let t = Vector3d::from(v);
    ens!(29, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<u8>>::default();
    ens!(30, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_u8x2(px: u8, py: u8) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<u8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u8>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_u8x2(px: u8, py: u8, bx: u8, by: u8) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u8x2(px: u8, py: u8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u8x2__panics(px: u8, py: u8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u8x2__panics(px: u8, py: u8, q0: u8, q1: u8, q2: u8, q3: u8, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<u8> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u8x3(px: u8, py: u8, pz: u8) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<u8>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u8>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u8> as Vector<u8>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u8> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u8> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (u8, u8, u8) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [u8; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<u8> as Vector<u8>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = Vector3d::<f32>::from(v);
    ens!(32, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()) & (t.z.to_bits() == (pz as f32).to_bits()));
    let t = <Vector3d<u8>>::default();
    ens!(33, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_u8x3(px: u8, py: u8, pz: u8) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<u8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<u8>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u8>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_u8x3(px: u8, py: u8, pz: u8, bx: u8, by: u8, bz: u8) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u8x3(px: u8, py: u8, pz: u8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u8x3__panics(px: u8, py: u8, pz: u8, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u8x3__panics(px: u8, py: u8, pz: u8, q0: u8, q1: u8, q2: u8, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<u8> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u16x2(px: u16, py: u16) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<u16>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<u16>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<u16> as Vector<u16>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<u16> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<u16> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (u16, u16) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [u16; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<u16> as Vector<u16>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector2d::<f32>::from(v);
    ens!(28, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()));
    let t = Vector3d::from(v);
    ens!(29, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<u16>>::default();
    ens!(30, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_u16x2(px: u16, py: u16) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<u16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u16>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_u16x2(px: u16, py: u16, bx: u16, by: u16) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u16x2(px: u16, py: u16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u16x2__panics(px: u16, py: u16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u16x2__panics(px: u16, py: u16, q0: u16, q1: u16, q2: u16, q3: u16, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<u16> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u16x3(px: u16, py: u16, pz: u16) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<u16>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u16>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u16> as Vector<u16>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u16> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u16> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (u16, u16, u16) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [u16; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<u16> as Vector<u16>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = Vector3d::<f32>::from(v);
    ens!(32, (t.x.to_bits() == (px as f32).to_bits()) & (t.y.to_bits() == (py as f32).to_bits()) & (t.z.to_bits() == (pz as f32).to_bits()));
    let t = <Vector3d<u16>>::default();
    ens!(33, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_u16x3(px: u16, py: u16, pz: u16) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<u16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<u16>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u16>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_u16x3(px: u16, py: u16, pz: u16, bx: u16, by: u16, bz: u16) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u16x3(px: u16, py: u16, pz: u16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u16x3__panics(px: u16, py: u16, pz: u16, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u16x3__panics(px: u16, py: u16, pz: u16, q0: u16, q1: u16, q2: u16, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<u16> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u32x2(px: u32, py: u32) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<u32>>::from((px, py));
    ens!(0, (t.x == px) & (t.y == py));
    let t = <Vector2d<u32>>::from([px, py]);
    ens!(1, (t.x == px) & (t.y == py));
    let t = <Vector2d<u32> as Vector<u32>>::from_slice(&[px, py]);
    ens!(2, (t.x == px) & (t.y == py));
    let t: Vector2d<u32> = [px, py].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py));
    let t: Vector2d<u32> = unhinted(&[px, py]).collect();
    ens!(4, (t.x == px) & (t.y == py));
    let t: (u32, u32) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py));
    let t: [u32; 2] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py));
    ens!(8, (v[0] == px) & (v[1] == py));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (t == py));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (p == px));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (p == py));
    ens!(26, <Vector2d<u32> as Vector<u32>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (t.x == px) & (t.y == py));
    let t = Vector3d::from(v);
    ens!(28, (t.x == px) & (t.y == py) & (t.z == 0));
    let t = <Vector2d<u32>>::default();
    ens!(29, (t.x == 0) & (t.y == 0));
}
fn vc__C24__reads_u32x2(px: u32, py: u32) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (r == py));
    let mut got = [<u32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (got[0] == px) & (got[1] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (r == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (got[0] == py));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u32>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (got[0] == px) & (got[1] == py));
    ens!(26, (r.x == py) & (r.y == px));
}
fn vc__C24__eq_u32x2(px: u32, py: u32, bx: u32, by: u32) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u32x2(px: u32, py: u32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u32x2__panics(px: u32, py: u32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u32x2__panics(px: u32, py: u32, q0: u32, q1: u32, q2: u32, q3: u32, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<u32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_u32x3(px: u32, py: u32, pz: u32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<u32>>::from((px, py, pz));
    ens!(0, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u32>>::from([px, py, pz]);
    ens!(1, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u32> as Vector<u32>>::from_slice(&[px, py, pz]);
    ens!(2, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u32> = [px, py, pz].iter().copied().collect();
    ens!(3, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: Vector3d<u32> = unhinted(&[px, py, pz]).collect();
    ens!(4, (t.x == px) & (t.y == py) & (t.z == pz));
    let t: (u32, u32, u32) = v.into();
    ens!(5, (t.0 == px) & (t.1 == py) & (t.2 == pz));
    let t: [u32; 3] = v.into();
    ens!(6, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    let t = v.to_array();
    ens!(7, (t[0] == px) & (t[1] == py) & (t[2] == pz));
    ens!(8, (v[0] == px) & (v[1] == py) & (v[2] == pz));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (t0.unwrap() == px) & (t1.unwrap() == py) & (t2.unwrap() == pz));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, t == px);
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, t == py);
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, t == pz);
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (t == pz));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (p == px));
    let q = q.unwrap();
    ens!(27, (q == pz));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (p == py));
    ens!(30, <Vector3d<u32> as Vector<u32>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (t.x == px) & (t.y == py) & (t.z == pz));
    let t = <Vector3d<u32>>::default();
    ens!(32, (t.x == 0) & (t.y == 0) & (t.z == 0));
}
fn vc__C24__reads_u32x3(px: u32, py: u32, pz: u32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (r == px));
    let s = s.unwrap();
    ens!(4, (s == py));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (r == py));
    let s = s.unwrap();
    ens!(7, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (r == pz));
    let mut got = [<u32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (r == py));
    let s = s.unwrap();
    ens!(16, (s == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (got[0] == py) & (got[1] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (r == pz));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (got[0] == pz));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<u32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<u32>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (got[0] == px) & (got[1] == py) & (got[2] == pz));
    ens!(42, (r.x == pz) & (r.y == py) & (r.z == px));
}
fn vc__C24__eq_u32x3(px: u32, py: u32, pz: u32, bx: u32, by: u32, bz: u32) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_u32x3(px: u32, py: u32, pz: u32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, g == e);
    ens!(2, v[i] == e);
}
fn vc__C24__index_u32x3__panics(px: u32, py: u32, pz: u32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_u32x3__panics(px: u32, py: u32, pz: u32, q0: u32, q1: u32, q2: u32, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<u32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_f32x2(px: f32, py: f32) {
    let v = Vector2d { x: px, y: py };
    let t = <Vector2d<f32>>::from((px, py));
    ens!(0, (same(t.x, px)) & (same(t.y, py)));
    let t = <Vector2d<f32>>::from([px, py]);
    ens!(1, (same(t.x, px)) & (same(t.y, py)));
    let t = <Vector2d<f32> as Vector<f32>>::from_slice(&[px, py]);
    ens!(2, (same(t.x, px)) & (same(t.y, py)));
    let t: Vector2d<f32> = [px, py].iter().copied().collect();
    ens!(3, (same(t.x, px)) & (same(t.y, py)));
    let t: Vector2d<f32> = unhinted(&[px, py]).collect();
    ens!(4, (same(t.x, px)) & (same(t.y, py)));
    let t: (f32, f32) = v.into();
    ens!(5, (same(t.0, px)) & (same(t.1, py)));
    let t: [f32; 2] = v.into();
    ens!(6, (same(t[0], px)) & (same(t[1], py)));
    let t = v.to_array();
    ens!(7, (same(t[0], px)) & (same(t[1], py)));
    ens!(8, (same(v[0], px)) & (same(v[1], py)));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (same(t0.unwrap(), px)) & (same(t1.unwrap(), py)));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, same(t, px));
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, same(t, py));
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (same(t, py)));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (same(p, px)));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (same(p, py)));
    ens!(26, <Vector2d<f32> as Vector<f32>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (same(t.x, px)) & (same(t.y, py)));
    let t = Vector3d::from(v);
    ens!(28, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, 0.0)));
    let t = <Vector2d<f32>>::default();
    ens!(29, (same(t.x, 0.0)) & (same(t.y, 0.0)));
}
fn vc__C24__reads_f32x2(px: f32, py: f32) {
    let v = Vector2d { x: px, y: py };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (same(r, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (same(r, px)));
    let s = s.unwrap();
    ens!(4, (same(s, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (same(r, py)));
    let mut got = [<f32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (same(got[0], px)) & (same(got[1], py)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (same(r, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (same(r, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (same(got[0], py)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<f32>::default(); 2], [py, px]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (same(got[0], px)) & (same(got[1], py)));
    ens!(26, (same(r.x, py)) & (same(r.y, px)));
}
fn vc__C24__eq_f32x2(px: f32, py: f32, bx: f32, by: f32) {
    let (v, w) = (Vector2d { x: px, y: py }, Vector2d { x: bx, y: by });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_f32x2(px: f32, py: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: px, y: py };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, same(g, e));
    ens!(2, same(v[i], e));
}
fn vc__C24__index_f32x2__panics(px: f32, py: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: px, y: py };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_f32x2__panics(px: f32, py: f32, q0: f32, q1: f32, q2: f32, q3: f32, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<f32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [px, py, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, q0, q1, q2, q3];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_f32x3(px: f32, py: f32, pz: f32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let t = <Vector3d<f32>>::from((px, py, pz));
    ens!(0, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t = <Vector3d<f32>>::from([px, py, pz]);
    ens!(1, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t = <Vector3d<f32> as Vector<f32>>::from_slice(&[px, py, pz]);
    ens!(2, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t: Vector3d<f32> = [px, py, pz].iter().copied().collect();
    ens!(3, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t: Vector3d<f32> = unhinted(&[px, py, pz]).collect();
    ens!(4, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t: (f32, f32, f32) = v.into();
    ens!(5, (same(t.0, px)) & (same(t.1, py)) & (same(t.2, pz)));
    let t: [f32; 3] = v.into();
    ens!(6, (same(t[0], px)) & (same(t[1], py)) & (same(t[2], pz)));
    let t = v.to_array();
    ens!(7, (same(t[0], px)) & (same(t[1], py)) & (same(t[2], pz)));
    ens!(8, (same(v[0], px)) & (same(v[1], py)) & (same(v[2], pz)));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (same(t0.unwrap(), px)) & (same(t1.unwrap(), py)) & (same(t2.unwrap(), pz)));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, same(t, px));
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, same(t, py));
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, same(t, pz));
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (same(t, pz)));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (same(p, px)));
    let q = q.unwrap();
    ens!(27, (same(q, pz)));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (same(p, py)));
    ens!(30, <Vector3d<f32> as Vector<f32>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t = <Vector3d<f32>>::default();
    ens!(32, (same(t.x, 0.0)) & (same(t.y, 0.0)) & (same(t.z, 0.0)));
}
fn vc__C24__reads_f32x3(px: f32, py: f32, pz: f32) {
    let v = Vector3d { x: px, y: py, z: pz };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (same(r, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (same(r, px)));
    let s = s.unwrap();
    ens!(4, (same(s, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (same(r, py)));
    let s = s.unwrap();
    ens!(7, (same(s, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (same(r, pz)));
    let mut got = [<f32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (same(got[0], px)) & (same(got[1], py)) & (same(got[2], pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (same(r, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (same(r, py)));
    let s = s.unwrap();
    ens!(16, (same(s, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (same(r, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (same(got[0], py)) & (same(got[1], pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (same(r, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (same(r, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (same(got[0], pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<f32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<f32>::default(); 3], [pz, py, px]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (same(got[0], px)) & (same(got[1], py)) & (same(got[2], pz)));
    ens!(42, (same(r.x, pz)) & (same(r.y, py)) & (same(r.z, px)));
}
fn vc__C24__eq_f32x3(px: f32, py: f32, pz: f32, bx: f32, by: f32, bz: f32) {
    let (v, w) = (Vector3d { x: px, y: py, z: pz }, Vector3d { x: bx, y: by, z: bz });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_f32x3(px: f32, py: f32, pz: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, same(g, e));
    ens!(2, same(v[i], e));
}
fn vc__C24__index_f32x3__panics(px: f32, py: f32, pz: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: px, y: py, z: pz };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_f32x3__panics(px: f32, py: f32, pz: f32, q0: f32, q1: f32, q2: f32, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<f32> = if len == 0 {
        let s = [px; 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [px];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [px, py];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [px, py, pz, q0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [px, py, pz, q0, q1];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [px, py, pz, q0, q1, q2];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_wx2(px: f32, py: f32) {
    let v = Vector2d { x: F32(px), y: F32(py) };
    let t = <Vector2d<F32>>::from((F32(px), F32(py)));
    ens!(0, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t = <Vector2d<F32>>::from([F32(px), F32(py)]);
    ens!(1, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t = <Vector2d<F32> as Vector<F32>>::from_slice(&[F32(px), F32(py)]);
    ens!(2, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t: Vector2d<F32> = [F32(px), F32(py)].iter().copied().collect();
    ens!(3, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t: Vector2d<F32> = unhinted(&[F32(px), F32(py)]).collect();
    ens!(4, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t: (F32, F32) = v.into();
    ens!(5, (same(t.0.0, px)) & (same(t.1.0, py)));
    let t: [F32; 2] = v.into();
    ens!(6, (same(t[0].0, px)) & (same(t[1].0, py)));
    let t = v.to_array();
    ens!(7, (same(t[0].0, px)) & (same(t[1].0, py)));
    ens!(8, (same(v[0].0, px)) & (same(v[1].0, py)));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (same(t0.unwrap().0, px)) & (same(t1.unwrap().0, py)));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, same(t.0, px));
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, same(t.0, py));
    ens!(15, v.iter().nth(2).is_none());
    ens!(16, v.iter().nth(3).is_none());
    let t = v.iter().last();
    ens!(17, t.is_some());
    let t = t.unwrap();
    ens!(18, (same(t.0, py)));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(19, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(20, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(22, p.is_some() & q.is_none() & r.is_none());
    let p = p.unwrap();
    ens!(23, (same(p.0, px)));
    let p = v.iter().skip(1).next();
    ens!(24, p.is_some());
    let p = p.unwrap();
    ens!(25, (same(p.0, py)));
    ens!(26, <Vector2d<F32> as Vector<F32>>::AXES == 2);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(27, (same(t.x.0, px)) & (same(t.y.0, py)));
    let t = Vector3d::from(v);
    ens!(28, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, 0.0)));
    let t = <Vector2d<F32>>::default();
    ens!(29, (same(t.x.0, 0.0)) & (same(t.y.0, 0.0)));
}
fn vc__C24__reads_wx2(px: f32, py: f32) {
    let v = Vector2d { x: F32(px), y: F32(py) };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (same(r.0, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (same(r.0, px)));
    let s = s.unwrap();
    ens!(4, (same(s.0, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(6, (same(r.0, py)));
    let mut got = [<F32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(7, c == 2);
    ens!(8, (same(got[0].0, px)) & (same(got[1].0, py)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(9, r.is_some());
    let r = r.unwrap();
    ens!(10, (same(r.0, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(11, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(12, (same(r.0, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(13, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(14, c == 1);
    ens!(15, (same(got[0].0, py)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(16, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(17, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(18, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(19, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(20, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(21, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(22, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 2];
    let c = t.clone().fold(0, |c, x| {
        if c < 2 {
            got[c] = x;
        }
        c + 1
    });
    ens!(23, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<F32>::default(); 2], [F32(py), F32(px)]);
    let r = u.map(|x| {
        if c < 2 {
            got[c] = x;
        }
        c += 1;
        out[if c > 2 { 0 } else { c - 1 }]
    });
    ens!(24, c == 2);
    ens!(25, (same(got[0].0, px)) & (same(got[1].0, py)));
    ens!(26, (same(r.x.0, py)) & (same(r.y.0, px)));
}
fn vc__C24__eq_wx2(px: f32, py: f32, bx: f32, by: f32) {
    let (v, w) = (Vector2d { x: F32(px), y: F32(py) }, Vector2d { x: F32(bx), y: F32(by) });
    let e = (px == bx) & (py == by);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_wx2(px: f32, py: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector2d { x: F32(px), y: F32(py) };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 2));
    req!(i < 2);
    let e = if i == 0 { px } else { py };
    let g = g.unwrap();
    ens!(1, same(g.0, e));
    ens!(2, same(v[i].0, e));
}
fn vc__C24__index_wx2__panics(px: f32, py: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 2);
    let v = Vector2d { x: F32(px), y: F32(py) };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_wx2__panics(px: f32, py: f32, q0: f32, q1: f32, q2: f32, q3: f32, len: u8, how: u8) {
    req!((len <= 6) & (len != 2) & (how < 3));
    let t: Vector2d<F32> = if len == 0 {
        let s = [F32(px); 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [F32(px)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 3 {
        let s = [F32(px), F32(py), F32(q0)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [F32(px), F32(py), F32(q0), F32(q1)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [F32(px), F32(py), F32(q0), F32(q1), F32(q2)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [F32(px), F32(py), F32(q0), F32(q1), F32(q2), F32(q3)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C24__conv_wx3(px: f32, py: f32, pz: f32) {
    let v = Vector3d { x: F32(px), y: F32(py), z: F32(pz) };
    let t = <Vector3d<F32>>::from((F32(px), F32(py), F32(pz)));
    ens!(0, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t = <Vector3d<F32>>::from([F32(px), F32(py), F32(pz)]);
    ens!(1, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t = <Vector3d<F32> as Vector<F32>>::from_slice(&[F32(px), F32(py), F32(pz)]);
    ens!(2, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t: Vector3d<F32> = [F32(px), F32(py), F32(pz)].iter().copied().collect();
    ens!(3, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t: Vector3d<F32> = unhinted(&[F32(px), F32(py), F32(pz)]).collect();
    ens!(4, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t: (F32, F32, F32) = v.into();
    ens!(5, (same(t.0.0, px)) & (same(t.1.0, py)) & (same(t.2.0, pz)));
    let t: [F32; 3] = v.into();
    ens!(6, (same(t[0].0, px)) & (same(t[1].0, py)) & (same(t[2].0, pz)));
    let t = v.to_array();
    ens!(7, (same(t[0].0, px)) & (same(t[1].0, py)) & (same(t[2].0, pz)));
    ens!(8, (same(v[0].0, px)) & (same(v[1].0, py)) & (same(v[2].0, pz)));
    let mut t = v.iter();
    let t0 = t.next();
    req!(true);
    let t1 = t.next();
    req!(true);
    let t2 = t.next();
    req!(true);
    ens!(9, (t0.is_some()) & (t1.is_some()) & (t2.is_some()) & (t.next().is_none()) & (t.next().is_none()));
    ens!(10, (same(t0.unwrap().0, px)) & (same(t1.unwrap().0, py)) & (same(t2.unwrap().0, pz)));
    let t = v.iter().nth(0);
    ens!(11, t.is_some());
    let t = t.unwrap();
    ens!(12, same(t.0, px));
    let t = v.iter().nth(1);
    ens!(13, t.is_some());
    let t = t.unwrap();
    ens!(14, same(t.0, py));
    let t = v.iter().nth(2);
    ens!(15, t.is_some());
    let t = t.unwrap();
    ens!(16, same(t.0, pz));
    ens!(17, v.iter().nth(3).is_none());
    ens!(18, v.iter().nth(4).is_none());
    let t = v.iter().last();
    ens!(19, t.is_some());
    let t = t.unwrap();
    ens!(20, (same(t.0, pz)));
    let mut t = v.iter();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(21, (c == 3) & (lo <= 3) & (hi.is_none() | (hi.unwrap_or(9) >= 3)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(22, (c == 2) & (lo <= 2) & (hi.is_none() | (hi.unwrap_or(9) >= 2)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(23, (c == 1) & (lo <= 1) & (hi.is_none() | (hi.unwrap_or(9) >= 1)));
    let _ = t.next();
    let c = t.clone().count();
    let (lo, hi) = t.size_hint();
    ens!(24, (c == 0) & (lo <= 0) & (hi.is_none() | (hi.unwrap_or(9) >= 0)));
    let _ = t.next();
    let mut t = v.iter().step_by(2);
    let (p, q, r) = (t.next(), t.next(), t.next());
    ens!(25, p.is_some() & q.is_some() & r.is_none());
    let p = p.unwrap();
    ens!(26, (same(p.0, px)));
    let q = q.unwrap();
    ens!(27, (same(q.0, pz)));
    let p = v.iter().skip(1).next();
    ens!(28, p.is_some());
    let p = p.unwrap();
    ens!(29, (same(p.0, py)));
    ens!(30, <Vector3d<F32> as Vector<F32>>::AXES == 3);
    let mut u = v;
    let t = u.map(|z| z);
    ens!(31, (same(t.x.0, px)) & (same(t.y.0, py)) & (same(t.z.0, pz)));
    let t = Vector3d::<f32>::from(v);
    ens!(32, (same(t.x, px)) & (same(t.y, py)) & (same(t.z, pz)));
    let t = <Vector3d<F32>>::default();
    ens!(33, (same(t.x.0, 0.0)) & (same(t.y.0, 0.0)) & (same(t.z.0, 0.0)));
}
fn vc__C24__reads_wx3(px: f32, py: f32, pz: f32) {
    let v = Vector3d { x: F32(px), y: F32(py), z: F32(pz) };
    let mut t = v.iter();
    let r = t.clone().last();
    ens!(0, r.is_some());
    let r = r.unwrap();
    ens!(1, (same(r.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(2, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(3, (same(r.0, px)));
    let s = s.unwrap();
    ens!(4, (same(s.0, py)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(5, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(6, (same(r.0, py)));
    let s = s.unwrap();
    ens!(7, (same(s.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(8, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(9, (same(r.0, pz)));
    let mut got = [<F32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(10, c == 3);
    ens!(11, (same(got[0].0, px)) & (same(got[1].0, py)) & (same(got[2].0, pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(12, r.is_some());
    let r = r.unwrap();
    ens!(13, (same(r.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(14, r.is_some() & s.is_some());
    let r = r.unwrap();
    ens!(15, (same(r.0, py)));
    let s = s.unwrap();
    ens!(16, (same(s.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(17, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(18, (same(r.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(19, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(20, c == 2);
    ens!(21, (same(got[0].0, py)) & (same(got[1].0, pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(22, r.is_some());
    let r = r.unwrap();
    ens!(23, (same(r.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(24, r.is_some() & s.is_none());
    let r = r.unwrap();
    ens!(25, (same(r.0, pz)));
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(26, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(27, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(28, c == 1);
    ens!(29, (same(got[0].0, pz)));
    let _ = t.next();
    let r = t.clone().last();
    ens!(30, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(31, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(32, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(33, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(34, c == 0);
    let _ = t.next();
    let r = t.clone().last();
    ens!(35, r.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(0), u.next());
    ens!(36, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(1), u.next());
    ens!(37, r.is_none() & s.is_none());
    let mut u = t.clone();
    let (r, s) = (u.nth(2), u.next());
    ens!(38, r.is_none() & s.is_none());
    let mut got = [<F32>::default(); 3];
    let c = t.clone().fold(0, |c, x| {
        if c < 3 {
            got[c] = x;
        }
        c + 1
    });
    ens!(39, c == 0);
    let _ = t.next();
    let (mut u, mut c, mut got, out) = (v, 0, [<F32>::default(); 3], [F32(pz), F32(py), F32(px)]);
    let r = u.map(|x| {
        if c < 3 {
            got[c] = x;
        }
        c += 1;
        out[if c > 3 { 0 } else { c - 1 }]
    });
    ens!(40, c == 3);
    ens!(41, (same(got[0].0, px)) & (same(got[1].0, py)) & (same(got[2].0, pz)));
    ens!(42, (same(r.x.0, pz)) & (same(r.y.0, py)) & (same(r.z.0, px)));
}
fn vc__C24__eq_wx3(px: f32, py: f32, pz: f32, bx: f32, by: f32, bz: f32) {
    let (v, w) = (Vector3d { x: F32(px), y: F32(py), z: F32(pz) }, Vector3d { x: F32(bx), y: F32(by), z: F32(bz) });
    let e = (px == bx) & (py == by) & (pz == bz);
    ens!(0, (v == w) == e);
    ens!(1, (v != w) != e);
}
fn vc__C24__get_wx3(px: f32, py: f32, pz: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    let v = Vector3d { x: F32(px), y: F32(py), z: F32(pz) };
    let g = v.get(i);
    ens!(0, g.is_some() == (i < 3));
    req!(i < 3);
    let e = if i == 0 { px } else if i == 1 { py } else { pz };
    let g = g.unwrap();
    ens!(1, same(g.0, e));
    ens!(2, same(v[i].0, e));
}
fn vc__C24__index_wx3__panics(px: f32, py: f32, pz: f32, hi: u32, lo: u32) {
    let i = ((hi as usize) << 32) | lo as usize;
    req!(i >= 3);
    let v = Vector3d { x: F32(px), y: F32(py), z: F32(pz) };
    let g = v[i];
    ens!(0, (g == g) & (g != g));
}
fn vc__C24__items_wx3__panics(px: f32, py: f32, pz: f32, q0: f32, q1: f32, q2: f32, len: u8, how: u8) {
    req!((len <= 6) & (len != 3) & (how < 3));
    let t: Vector3d<F32> = if len == 0 {
        let s = [F32(px); 0];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 1 {
        let s = [F32(px)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 2 {
        let s = [F32(px), F32(py)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 4 {
        let s = [F32(px), F32(py), F32(pz), F32(q0)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else if len == 5 {
        let s = [F32(px), F32(py), F32(pz), F32(q0), F32(q1)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    } else {
        let s = [F32(px), F32(py), F32(pz), F32(q0), F32(q1), F32(q2)];
        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }
    };
    ens!(0, (t.x == t.x) & (t.x != t.x));
}
fn vc__C25__magnitude_f32x2(ax: f32, ay: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_f32x2(ax: f32, ay: f32, bx: f32, by: f32) {
    req!((below(ax, f32::MAX)) & (below(ay, f32::MAX)) & (below(bx, f32::MAX)) & (below(by, f32::MAX)));
    req!(((ax as f64 - bx as f64 <= 1e19) & (ax as f64 - bx as f64 >= -1e19)) & ((ay as f64 - by as f64 <= 1e19) & (ay as f64 - by as f64 >= -1e19)));
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.distance(Vector2d { x: bx, y: by }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__normalized_f32x2(ax: f32, ay: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let r = Vector2d { x: ax, y: ay }.normalized();
    let n = sq(r.x as f64) + sq(r.y as f64);
    ens!(0, n >= 0.94 * 0.94);
    ens!(1, n <= 1.0002 * 1.0002);
    ens!(2, r.x as f64 * ax as f64 >= -1e-24);
    ens!(3, r.y as f64 * ay as f64 >= -1e-24);
    ens!(4, parallel(r.y, r.x, ay, ax));
}
fn vc__C25__magnitude_f32x3(ax: f32, ay: f32, az: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)) & (below(az, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_f32x3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32) {
    req!((below(ax, f32::MAX)) & (below(ay, f32::MAX)) & (below(az, f32::MAX)) & (below(bx, f32::MAX)) & (below(by, f32::MAX)) & (below(bz, f32::MAX)));
    req!(((ax as f64 - bx as f64 <= 1e19) & (ax as f64 - bx as f64 >= -1e19)) & ((ay as f64 - by as f64 <= 1e19) & (ay as f64 - by as f64 >= -1e19)) & ((az as f64 - bz as f64 <= 1e19) & (az as f64 - bz as f64 >= -1e19)));
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.distance(Vector3d { x: bx, y: by, z: bz }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__normalized_f32x3(ax: f32, ay: f32, az: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)) & (below(az, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let r = Vector3d { x: ax, y: ay, z: az }.normalized();
    let n = sq(r.x as f64) + sq(r.y as f64) + sq(r.z as f64);
    ens!(0, n >= 0.94 * 0.94);
    ens!(1, n <= 1.0002 * 1.0002);
    ens!(2, r.x as f64 * ax as f64 >= -1e-24);
    ens!(3, r.y as f64 * ay as f64 >= -1e-24);
    ens!(4, parallel(r.y, r.x, ay, ax));
    ens!(5, r.z as f64 * az as f64 >= -1e-24);
    ens!(6, parallel(r.z, r.x, az, ax));
    ens!(7, parallel(r.z, r.y, az, ay));
}
fn vc__C25__magnitude_wx2(ax: f32, ay: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: F32(ax), y: F32(ay) }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_wx2(ax: f32, ay: f32, bx: f32, by: f32) {
    req!((below(ax, f32::MAX)) & (below(ay, f32::MAX)) & (below(bx, f32::MAX)) & (below(by, f32::MAX)));
    req!(((ax as f64 - bx as f64 <= 1e19) & (ax as f64 - bx as f64 >= -1e19)) & ((ay as f64 - by as f64 <= 1e19) & (ay as f64 - by as f64 >= -1e19)));
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: F32(ax), y: F32(ay) }.distance(Vector2d { x: F32(bx), y: F32(by) }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__normalized_wx2(ax: f32, ay: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let r = Vector2d { x: F32(ax), y: F32(ay) }.normalized();
    let n = sq(r.x.0 as f64) + sq(r.y.0 as f64);
    ens!(0, n >= 0.94 * 0.94);
    ens!(1, n <= 1.0002 * 1.0002);
    ens!(2, r.x.0 as f64 * ax as f64 >= -1e-24);
    ens!(3, r.y.0 as f64 * ay as f64 >= -1e-24);
    ens!(4, parallel(r.y.0, r.x.0, ay, ax));
}
fn vc__C25__magnitude_wx3(ax: f32, ay: f32, az: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)) & (below(az, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: F32(ax), y: F32(ay), z: F32(az) }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_wx3(ax: f32, ay: f32, az: f32, bx: f32, by: f32, bz: f32) {
    req!((below(ax, f32::MAX)) & (below(ay, f32::MAX)) & (below(az, f32::MAX)) & (below(bx, f32::MAX)) & (below(by, f32::MAX)) & (below(bz, f32::MAX)));
    req!(((ax as f64 - bx as f64 <= 1e19) & (ax as f64 - bx as f64 >= -1e19)) & ((ay as f64 - by as f64 <= 1e19) & (ay as f64 - by as f64 >= -1e19)) & ((az as f64 - bz as f64 <= 1e19) & (az as f64 - bz as f64 >= -1e19)));
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: F32(ax), y: F32(ay), z: F32(az) }.distance(Vector3d { x: F32(bx), y: F32(by), z: F32(bz) }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__normalized_wx3(ax: f32, ay: f32, az: f32) {
    req!((below(ax, 1e19)) & (below(ay, 1e19)) & (below(az, 1e19)));
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let r = Vector3d { x: F32(ax), y: F32(ay), z: F32(az) }.normalized();
    let n = sq(r.x.0 as f64) + sq(r.y.0 as f64) + sq(r.z.0 as f64);
    ens!(0, n >= 0.94 * 0.94);
    ens!(1, n <= 1.0002 * 1.0002);
    ens!(2, r.x.0 as f64 * ax as f64 >= -1e-24);
    ens!(3, r.y.0 as f64 * ay as f64 >= -1e-24);
    ens!(4, parallel(r.y.0, r.x.0, ay, ax));
    ens!(5, r.z.0 as f64 * az as f64 >= -1e-24);
    ens!(6, parallel(r.z.0, r.x.0, az, ax));
    ens!(7, parallel(r.z.0, r.y.0, az, ay));
}
fn vc__C25__magnitude_i8x2(ax: i8, ay: i8) {
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_i8x2(ax: i8, ay: i8, bx: i8, by: i8) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.distance(Vector2d { x: bx, y: by }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_i8x3(ax: i8, ay: i8, az: i8) {
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_i8x3(ax: i8, ay: i8, az: i8, bx: i8, by: i8, bz: i8) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.distance(Vector3d { x: bx, y: by, z: bz }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_i16x2(ax: i16, ay: i16) {
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_i16x2(ax: i16, ay: i16, bx: i16, by: i16) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.distance(Vector2d { x: bx, y: by }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_i16x3(ax: i16, ay: i16, az: i16) {
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_i16x3(ax: i16, ay: i16, az: i16, bx: i16, by: i16, bz: i16) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.distance(Vector3d { x: bx, y: by, z: bz }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_u8x2(ax: u8, ay: u8) {
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_u8x2(ax: u8, ay: u8, bx: u8, by: u8) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.distance(Vector2d { x: bx, y: by }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_u8x3(ax: u8, ay: u8, az: u8) {
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_u8x3(ax: u8, ay: u8, az: u8, bx: u8, by: u8, bz: u8) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.distance(Vector3d { x: bx, y: by, z: bz }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_u16x2(ax: u16, ay: u16) {
    let t = sq(ax as f64) + sq(ay as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_u16x2(ax: u16, ay: u16, bx: u16, by: u16) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector2d { x: ax, y: ay }.distance(Vector2d { x: bx, y: by }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__magnitude_u16x3(ax: u16, ay: u16, az: u16) {
    let t = sq(ax as f64) + sq(ay as f64) + sq(az as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.magnitude() as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C25__distance_u16x3(ax: u16, ay: u16, az: u16, bx: u16, by: u16, bz: u16) {
    let t = sq(ax as f64 - bx as f64) + sq(ay as f64 - by as f64) + sq(az as f64 - bz as f64);
    req!((t >= 1e-36) & (t <= 1e38));
    let m = Vector3d { x: ax, y: ay, z: az }.distance(Vector3d { x: bx, y: by, z: bz }) as f64;
    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));
    ens!(1, m * m <= 1.0612 * 1.0612 * t);
}
fn vc__C27__rotate_f32(w: f32, x: f32, y: f32, z: f32, a: f32, b: f32, c: f32) {
    req!((below(w, 1e9)) & (below(x, 1e9)) & (below(y, 1e9)) & (below(z, 1e9)) & (below(a, 1e9)) & (below(b, 1e9)) & (below(c, 1e9)));
    let (q, u) = (Quaternion::new(w, x, y, z), Vector3d { x: a, y: b, z: c });
    let (r, s) = (q.rotate(u), q * u);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c) = (a as f64, b as f64, c as f64);
    let t = [w * w * a, x * x * a, -(y * y * a), -(z * z * a), 2.0 * x * y * b, -(2.0 * w * z * b), 2.0 * x * z * c, 2.0 * w * y * c];
    ens!(0, turned(r.x, &t));
    ens!(1, turned(s.x, &t));
    let t = [2.0 * x * y * a, 2.0 * w * z * a, w * w * b, -(x * x * b), y * y * b, -(z * z * b), 2.0 * y * z * c, -(2.0 * w * x * c)];
    ens!(2, turned(r.y, &t));
    ens!(3, turned(s.y, &t));
    let t = [2.0 * x * z * a, -(2.0 * w * y * a), 2.0 * y * z * b, 2.0 * w * x * b, w * w * c, -(x * x * c), -(y * y * c), z * z * c];
    ens!(4, turned(r.z, &t));
    ens!(5, turned(s.z, &t));
}
fn vc__C27__rotate_i8(w: f32, x: f32, y: f32, z: f32, a: i8, b: i8, c: i8) {
    req!((below(w, 1e9)) & (below(x, 1e9)) & (below(y, 1e9)) & (below(z, 1e9)));
    let (q, u) = (Quaternion::new(w, x, y, z), Vector3d { x: a, y: b, z: c });
    let (r, s) = (q.rotate(u), q * u);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c) = (a as f64, b as f64, c as f64);
    let t = [w * w * a, x * x * a, -(y * y * a), -(z * z * a), 2.0 * x * y * b, -(2.0 * w * z * b), 2.0 * x * z * c, 2.0 * w * y * c];
    ens!(0, turned(r.x, &t));
    ens!(1, turned(s.x, &t));
    let t = [2.0 * x * y * a, 2.0 * w * z * a, w * w * b, -(x * x * b), y * y * b, -(z * z * b), 2.0 * y * z * c, -(2.0 * w * x * c)];
    ens!(2, turned(r.y, &t));
    ens!(3, turned(s.y, &t));
    let t = [2.0 * x * z * a, -(2.0 * w * y * a), 2.0 * y * z * b, 2.0 * w * x * b, w * w * c, -(x * x * c), -(y * y * c), z * z * c];
    ens!(4, turned(r.z, &t));
    ens!(5, turned(s.z, &t));
}
fn vc__C27__rotate_i16(w: f32, x: f32, y: f32, z: f32, a: i16, b: i16, c: i16) {
    req!((below(w, 1e9)) & (below(x, 1e9)) & (below(y, 1e9)) & (below(z, 1e9)));
    let (q, u) = (Quaternion::new(w, x, y, z), Vector3d { x: a, y: b, z: c });
    let (r, s) = (q.rotate(u), q * u);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c) = (a as f64, b as f64, c as f64);
    let t = [w * w * a, x * x * a, -(y * y * a), -(z * z * a), 2.0 * x * y * b, -(2.0 * w * z * b), 2.0 * x * z * c, 2.0 * w * y * c];
    ens!(0, turned(r.x, &t));
    ens!(1, turned(s.x, &t));
    let t = [2.0 * x * y * a, 2.0 * w * z * a, w * w * b, -(x * x * b), y * y * b, -(z * z * b), 2.0 * y * z * c, -(2.0 * w * x * c)];
    ens!(2, turned(r.y, &t));
    ens!(3, turned(s.y, &t));
    let t = [2.0 * x * z * a, -(2.0 * w * y * a), 2.0 * y * z * b, 2.0 * w * x * b, w * w * c, -(x * x * c), -(y * y * c), z * z * c];
    ens!(4, turned(r.z, &t));
    ens!(5, turned(s.z, &t));
}
fn vc__C27__rotate_u8(w: f32, x: f32, y: f32, z: f32, a: u8, b: u8, c: u8) {
    req!((below(w, 1e9)) & (below(x, 1e9)) & (below(y, 1e9)) & (below(z, 1e9)));
    let (q, u) = (Quaternion::new(w, x, y, z), Vector3d { x: a, y: b, z: c });
    let (r, s) = (q.rotate(u), q * u);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c) = (a as f64, b as f64, c as f64);
    let t = [w * w * a, x * x * a, -(y * y * a), -(z * z * a), 2.0 * x * y * b, -(2.0 * w * z * b), 2.0 * x * z * c, 2.0 * w * y * c];
    ens!(0, turned(r.x, &t));
    ens!(1, turned(s.x, &t));
    let t = [2.0 * x * y * a, 2.0 * w * z * a, w * w * b, -(x * x * b), y * y * b, -(z * z * b), 2.0 * y * z * c, -(2.0 * w * x * c)];
    ens!(2, turned(r.y, &t));
    ens!(3, turned(s.y, &t));
    let t = [2.0 * x * z * a, -(2.0 * w * y * a), 2.0 * y * z * b, 2.0 * w * x * b, w * w * c, -(x * x * c), -(y * y * c), z * z * c];
    ens!(4, turned(r.z, &t));
    ens!(5, turned(s.z, &t));
}
fn vc__C27__rotate_u16(w: f32, x: f32, y: f32, z: f32, a: u16, b: u16, c: u16) {
    req!((below(w, 1e9)) & (below(x, 1e9)) & (below(y, 1e9)) & (below(z, 1e9)));
    let (q, u) = (Quaternion::new(w, x, y, z), Vector3d { x: a, y: b, z: c });
    let (r, s) = (q.rotate(u), q * u);
    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);
    let (a, b, c) = (a as f64, b as f64, c as f64);
    let t = [w * w * a, x * x * a, -(y * y * a), -(z * z * a), 2.0 * x * y * b, -(2.0 * w * z * b), 2.0 * x * z * c, 2.0 * w * y * c];
    ens!(0, turned(r.x, &t));
    ens!(1, turned(s.x, &t));
    let t = [2.0 * x * y * a, 2.0 * w * z * a, w * w * b, -(x * x * b), y * y * b, -(z * z * b), 2.0 * y * z * c, -(2.0 * w * x * c)];
    ens!(2, turned(r.y, &t));
    ens!(3, turned(s.y, &t));
    let t = [2.0 * x * z * a, -(2.0 * w * y * a), 2.0 * y * z * b, 2.0 * w * x * b, w * w * c, -(x * x * c), -(y * y * c), z * z * c];
    ens!(4, turned(r.z, &t));
    ens!(5, turned(s.z, &t));
}
}
