//! C29: executed natively on a bounded set of arguments, never counted as proved (DESIGN.md, 3.6).
use crate::{ens, req, vcs};
use micromath::vector::Vector3d;
use micromath::{Quaternion, F32};

/// squared length of q, and whether q turns the direction of u into that of v up to 0.01 radians
fn turns(q: Quaternion, u: [f64; 3], v: [f64; 3]) -> (f64, bool) {
    let (w, x, y, z) = (q.w() as f64, q.x() as f64, q.y() as f64, q.z() as f64);
    let n = w * w + x * x + y * y + z * z;
    // t = 2 (q x u), r = u + w t + q x t, here times the squared length
    let (a, b, c) = (u[0], u[1], u[2]);
    let s = w * w - x * x - y * y - z * z;
    let d = 2.0 * (x * a + y * b + z * c);
    let r = [
        s * a + d * x + 2.0 * w * (y * c - z * b),
        s * b + d * y + 2.0 * w * (z * a - x * c),
        s * c + d * z + 2.0 * w * (x * b - y * a),
    ];
    let dot = r[0] * v[0] + r[1] * v[1] + r[2] * v[2];
    let k = [r[1] * v[2] - r[2] * v[1], r[2] * v[0] - r[0] * v[2], r[0] * v[1] - r[1] * v[0]];
    let cross = k[0] * k[0] + k[1] * k[1] + k[2] * k[2];
    // tan(0.01) = 0.0100003
    (n, dot > 0.0 && cross <= 1.00006e-4 * dot * dot)
}
fn len2(v: [f64; 3]) -> f64 {
    v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// in [-1, 1)
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / 4503599627370496.0 - 1.0
    }
    /// a power of ten in 10^[lo, hi), in equal steps of its logarithm up to a factor of two
    fn log(&mut self, lo: i32, hi: i32) -> f64 {
        let mut r = 1.0;
        let k = lo * 10 / 3 + (self.next() % ((hi - lo) as u64 * 10 / 3 + 1)) as i32;
        for _ in 0..k.unsigned_abs() {
            r *= if k > 0 { 2.0 } else { 0.5 };
        }
        r * (1.0 + self.unit().abs())
    }
    fn component(&mut self, how: u64) -> f64 {
        match (how, self.next() % 8) {
            (0, _) => self.unit(),
            (1, 0..=3) => 0.0,
            (1, _) => (self.next() % 5) as f64 - 2.0,
            (2, 0..=2) => self.unit() * 1e-6,
            (2, _) => self.unit(),
            (_, 0) => 0.0,
            (_, 1) => self.unit() * 1e-3,
            _ => self.unit() * self.log(-6, 0),
        }
    }
}
/// a pair of vectors of the domain
fn pair(seed: u32, seed2: u32) -> ([f64; 3], [f64; 3]) {
    let mut r = Rng(seed as u64 | (seed2 as u64) << 32);
    let h = r.next() % 4;
    let mut u = [r.component(h), r.component(h), r.component(h)];
    let h = r.next() % 4;
    let mut v = [r.component(h), r.component(h), r.component(h)];
    let how = r.next() % 8;
    match how {
        0 | 1 | 2 => {}
        3 | 4 => {
            // nearly parallel, nearly opposite
            let k = if how == 3 { r.log(-1, 1) } else { -r.log(-1, 1) };
            let e = r.log(-9, 0);
            for i in 0..3 {
                v[i] = k * u[i] + e * v[i];
            }
        }
        5 => v = [-u[0], -u[1], -u[2]],
        6 => v = u,
        _ => {
            // a permutation, the vectors at right angles
            v = [u[1], -u[0], 0.0];
        }
    }
    for w in [&mut u, &mut v] {
        let l = len2(*w);
        let s = match r.next() % 4 {
            0 => 1.0,
            1 => r.log(-3, 3),
            2 => 1000.0 / (w[0].abs().max(w[1].abs()).max(w[2].abs()).max(1e-30)),
            _ => {
                // length just above the end of the domain
                let mut n = 1e-3 * r.log(0, 1);
                if l > 0.0 {
                    let mut t = l;
                    for _ in 0..60 {
                        t = 0.5 * (t + l / t);
                    }
                    n /= t;
                }
                n
            }
        };
        for x in w.iter_mut() {
            *x = (*x * s) as f32 as f64;
        }
    }
    (u, v)
}
#[inline(always)]
fn inside(u: [f64; 3]) -> bool {
    len2(u) >= 1e-6 && u.iter().all(|x| *x <= 1000.0 && *x >= -1000.0)
}

vcs! {
fn vc__C29__pairs(seed: u32, seed2: u32) {
    let (u, v) = pair(seed, seed2);
    req!(inside(u) && inside(v));
    let f = |u: [f64; 3]| Vector3d { x: u[0] as f32, y: u[1] as f32, z: u[2] as f32 };
    let (n, t) = turns(Quaternion::from_two_vectors(f(u), f(v)), u, v);
    ens!(0, n >= 0.93 && n <= 1.075);
    ens!(1, t);
}
fn vc__C29__vectors(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32) {
    let (u, v) = ([a as f64, b as f64, c as f64], [d as f64, e as f64, f as f64]);
    req!(inside(u) && inside(v));
    let q = Quaternion::from_two_vectors(Vector3d { x: a, y: b, z: c }, Vector3d { x: d, y: e, z: f });
    let (n, t) = turns(q, u, v);
    ens!(0, n >= 0.93 && n <= 1.075);
    ens!(1, t);
    let w = |x: f32| F32(x);
    let p = Quaternion::from_two_vectors(Vector3d { x: w(a), y: w(b), z: w(c) }, Vector3d { x: w(d), y: w(e), z: w(f) });
    ens!(2, crate::exact::same(p.w(), q.w()) && crate::exact::same(p.x(), q.x()) && crate::exact::same(p.y(), q.y()) && crate::exact::same(p.z(), q.z()));
}
fn vc__C29__int(a: i8, b: i8, c: i8, d: i8, e: i8, f: i8) {
    let (u, v) = ([a as f64, b as f64, c as f64], [d as f64, e as f64, f as f64]);
    // the dot products of the crate are those of the component type
    req!(len2(u) >= 1.0 && len2(v) >= 1.0 && len2(u) <= 127.0 && len2(v) <= 127.0);
    let q = Quaternion::from_two_vectors(Vector3d { x: a, y: b, z: c }, Vector3d { x: d, y: e, z: f });
    let (n, t) = turns(q, u, v);
    ens!(0, n >= 0.93 && n <= 1.075);
    ens!(1, t);
}
// every pair with integer components in -6..6: u is number k, v all others, both at six scales
fn vc__C29__grid(k: u16) {
    req!(k < 2197);
    let at = |k: u16, s: f64| [((k % 13) as f64 - 6.0) * s, ((k / 13 % 13) as f64 - 6.0) * s, ((k / 169) as f64 - 6.0) * s];
    let scale = [1.0, 0.001953125, 128.0];
    let f = |u: [f64; 3]| Vector3d { x: u[0] as f32, y: u[1] as f32, z: u[2] as f32 };
    for i in 0..6 {
        let u = at(k, scale[i / 2]);
        req!(inside(u));
        for j in 0..2197 {
            let v = at(j, scale[(i + i / 2) % 3]);
            if inside(v) {
                let (n, t) = turns(Quaternion::from_two_vectors(f(u), f(v)), u, v);
                ens!(0, n >= 0.93 && n <= 1.075);
                ens!(1, t);
            }
        }
    }
}
fn vc__C29__wrapper(a: f32, b: f32, c: f32, d: f32, e: f32, f: f32) {
    let q = Quaternion::from_two_vectors(Vector3d { x: a, y: b, z: c }, Vector3d { x: d, y: e, z: f });
    let w = |x: f32| F32(x);
    let p = Quaternion::from_two_vectors(Vector3d { x: w(a), y: w(b), z: w(c) }, Vector3d { x: w(d), y: w(e), z: w(f) });
    ens!(0, crate::exact::same(p.w(), q.w()) & crate::exact::same(p.x(), q.x()));
    ens!(1, crate::exact::same(p.y(), q.y()) & crate::exact::same(p.z(), q.z()));
}
}
