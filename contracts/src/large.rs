//! Sequences longer than the proofs reach (C21, C22, C24, C31, C32): executed natively, never counted as proved.
use crate::exact::same;
use crate::{ens, vcs};
use micromath::statistics::trim::Trim;
use micromath::statistics::{Mean, StdDev, Variance};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::F32;

const MAX: usize = 66_000;

/// a number of items around the sizes of counters
fn size(n: u32) -> usize {
    let k = (n >> 3) as usize;
    match n & 7 {
        0 => k % MAX + 1,
        1 => 65_533 + k % 8,
        2 => 32_765 + k % 8,
        3 => 253 + k % 8,
        4 => 125 + k % 8,
        _ => 1 + k % 600,
    }
}
fn fill(xs: &mut [f32; MAX], n: usize, seed: u32, any: bool) {
    let mut r = seed;
    let scale = [1.0f32, 1e-3, 1e6, 1e14, 100.0, 1e-20][(seed >> 8) as usize % 6];
    let offset = [0.0f32, 0.0, 1.0, 1000.0, -3.0][(seed >> 16) as usize % 5];
    for x in xs[..n].iter_mut() {
        r = r.wrapping_mul(1664525).wrapping_add(1013904223);
        let unit = (r >> 8) as f32 / 8388608.0 - 1.0;
        *x = match seed & 3 {
            0 => offset + unit * scale,
            1 => (r >> 28) as f32,
            2 if r >> 24 == 0 => scale,
            2 => offset,
            _ if any && r >> 22 == 7 => f32::from_bits(r.rotate_left(9)),
            _ => unit * scale,
        };
    }
}
/// an iterator that says nothing about its length
struct Plain<'a>(&'a [f32], usize);
impl<'a> Iterator for Plain<'a> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        let r = self.0.get(self.1).copied();
        self.1 += 1;
        r
    }
}

vcs! {
fn vc__C31__count() {
    // more items than a counter of 32 bits can hold
    let n = 4_294_967_320u64;
    let m = (0..n).map(|_| 1.0f32).mean();
    // the sum stays at 2^24
    ens!(0, m >= 0.0 && m <= 0.0079);
}
fn vc__C31__large(seed: u32, len: u32) {
    let mut xs = [0f32; MAX];
    let n = size(len);
    fill(&mut xs, n, seed, false);
    let s = &xs[..n];
    let k = (n + 8) as f64 * 1.2e-7;
    let m = s.iter().copied().mean();
    let (mut t, mut a) = (0f64, 0f64);
    for x in s { t += *x as f64; a += (*x as f64).abs(); }
    let d = m as f64 * n as f64 - t;
    ens!(0, d <= k * a + 1e-40 && -d <= k * a + 1e-40);
    ens!(1, same(Plain(s, 0).mean(), m));
    if n >= 2 {
        let v = s.variance();
        let mut t = 0f64;
        for x in s { let e = *x as f64 - m as f64; t += e * e; }
        let d = v as f64 * (n - 1) as f64 - t;
        ens!(2, d <= k * t + 1e-40 && -d <= k * t + 1e-40);
    }
    ens!(3, same(s.stddev(), F32(s.variance()).sqrt().0));
}

fn vc__C21__folds_large(seed: u32, len: u32) {
    let mut xs = [0f32; MAX];
    let n = if len & 0x100 == 0 { size(len) % 40 } else { size(len) };
    fill(&mut xs, n, seed, true);
    let (mut s, mut p) = (0.0f32, 1.0f32);
    for x in &xs[..n] { s += *x; p *= *x; }
    let eq = |a: F32, b: f32| same(a.0, b) || a.0 == b;
    ens!(0, eq(xs[..n].iter().map(|x| F32(*x)).sum(), s));
    ens!(1, eq(xs[..n].iter().map(|x| F32(*x)).product(), p));
    let mut i = 0;
    ens!(2, eq(core::iter::from_fn(|| { i += 1; xs[..n].get(i - 1).map(|x| F32(*x)) }).sum(), s));
}
fn vc__C22__folds(seed: u32, len: u32) {
    let mut xs = [0f32; MAX];
    let n = (if len & 0x100 == 0 { size(len) % 40 } else { size(len) });
    fill(&mut xs, MAX, seed, true);
    let mut s = [0.0f32; 3];
    let mut k = [0u32; 3];
    for i in 0..n {
        for j in 0..3 { s[j] += xs[(i + 7 * j) % MAX]; k[j] += xs[(i + 7 * j) % MAX].to_bits() >> 17; }
    }
    let v = |i: usize| Vector3d { x: xs[i], y: xs[(i + 7) % MAX], z: xs[(i + 14) % MAX] };
    let w = |i: usize| Vector2d { x: F32(xs[i]), y: F32(xs[(i + 7) % MAX]) };
    let t: Vector3d<f32> = (0..n).map(v).sum();
    ens!(0, same(t.x, s[0]) && same(t.y, s[1]) && same(t.z, s[2]));
    let t: Vector2d<F32> = (0..n).map(w).sum();
    ens!(1, same(t.x.0, s[0]) && same(t.y.0, s[1]));
    let t: Vector3d<u32> = (0..n).map(|i| { let v = v(i); Vector3d { x: v.x.to_bits() >> 17, y: v.y.to_bits() >> 17, z: v.z.to_bits() >> 17 } }).sum();
    ens!(2, t.x == k[0] && t.y == k[1] && t.z == k[2]);
    let t: Vector2d<u32> = (0..n).map(|i| { let v = v(i); Vector2d { x: v.x.to_bits() >> 17, y: v.y.to_bits() >> 17 } }).sum();
    ens!(3, t.x == k[0] && t.y == k[1]);
    let some = [v(n / 2 % n.max(1)); 300];
    let m = n % 300;
    let (mut a, mut b) = (Vector3d { x: 0.0, y: 0.0, z: 0.0 }, 0.0f32);
    for u in &some[..m] { a = a + *u; b += u.y; }
    ens!(4, same(some[..m].iter().sum::<Vector3d<f32>>().y, b) && same(a.y, b));
}
fn vc__C24__items__panics(seed: u32, len: u32, how: u8) {
    let mut xs = [0f32; MAX];
    let n = size(len);
    req!(n > 3);
    fill(&mut xs, n, seed, true);
    let s = &xs[..n];
    let x = match how % 4 {
        0 => <Vector2d<f32> as Vector<f32>>::from_slice(s).x,
        1 => <Vector3d<f32> as Vector<f32>>::from_slice(s).x,
        2 => s.iter().copied().collect::<Vector2d<f32>>().x,
        _ => s.iter().copied().collect::<Vector3d<f32>>().x,
    };
    ens!(0, x == x && x != x);
}
fn vc__C32__large(seed: u32, len: u32, t: f32) {
    let mut xs = [0f32; MAX];
    let n = size(len);
    fill(&mut xs, n, seed, true);
    let s = &xs[..n];
    let (m, d) = (s.iter().copied().mean(), s.stddev());
    for t in [2.0, t] {
        let mut it = s.trim_at(t);
        for x in s {
            if (*x - m).abs() / d < t {
                match it.next() {
                    Some(y) => ens!(0, y.to_bits() == x.to_bits()),
                    None => ens!(1, false),
                }
            }
        }
        ens!(2, it.next().is_none());
    }
    let (mut a, mut b) = (s.trim(), s.trim_at(2.0));
    loop {
        match (a.next(), b.next()) {
            (None, None) => break,
            (Some(x), Some(y)) => ens!(3, x.to_bits() == y.to_bits()),
            _ => ens!(4, false),
        }
    }
}
}
