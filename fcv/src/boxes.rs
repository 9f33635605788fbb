//! Box back end: decides an obligation over all inputs by branch and bound. Every term is enclosed
//! on a box of inputs by an interval and, where possible, by an affine form in the inputs
//! (value = c + sum v_i d_i + [-e, e], d_i in [-1, 1]); floating-point rounding is part of the
//! enclosure and integer operations on the bits of a float keep the affine form within a binade.
use crate::dag::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub const NV: usize = 3;

#[derive(Clone, Copy, Debug)]
pub struct Aff {
    pub c: f64,
    pub v: [f64; NV],
    pub e: f64,
}

#[derive(Clone, Copy, Debug)]
pub enum Ab {
    /// 0 false, 1 true, 2 unknown
    B(u8),
    /// floats; lo > hi when only NaN is possible; the sign of zero bounds counts
    F { lo: f64, hi: f64, nan: bool, aff: Option<Aff> },
    /// integers: unsigned and signed bounds, bits known to be zero; the affine form encloses the unsigned value
    I { ul: u64, uh: u64, sl: i64, sh: i64, kz: u64, aff: Option<Aff> },
}
use Ab::*;

const EPS: f64 = 4e-16;
const INF: f64 = f64::INFINITY;

impl Aff {
    fn konst(c: f64) -> Aff {
        Aff { c, v: [0.0; NV], e: 0.0 }
    }
    fn rad(&self) -> f64 {
        let mut r = self.e;
        for x in self.v {
            r += x.abs();
        }
        r * (1.0 + EPS)
    }
    fn lo(&self) -> f64 {
        let r = self.rad();
        self.c - r - (self.c.abs() + r) * EPS
    }
    fn hi(&self) -> f64 {
        let r = self.rad();
        self.c + r + (self.c.abs() + r) * EPS
    }
    fn ok(self) -> Option<Aff> {
        if self.c.is_finite() && self.e.is_finite() && self.v.iter().all(|x| x.is_finite()) && self.c.abs() < 1e300 && self.rad() < 1e300 {
            Some(self)
        } else {
            None
        }
    }
    fn add(&self, b: &Aff) -> Aff {
        let mut r = *self;
        r.c += b.c;
        let mut m = r.c.abs();
        for i in 0..NV {
            r.v[i] += b.v[i];
            m += r.v[i].abs();
        }
        r.e = (r.e + b.e) * (1.0 + EPS) + m * EPS;
        r
    }
    fn scale(&self, k: f64) -> Aff {
        let mut r = *self;
        r.c *= k;
        let mut m = r.c.abs();
        for i in 0..NV {
            r.v[i] *= k;
            m += r.v[i].abs();
        }
        r.e = r.e * k.abs() * (1.0 + EPS) + m * EPS;
        r
    }
    fn shift(&self, k: f64) -> Aff {
        let mut r = *self;
        r.c += k;
        r.e += (self.c.abs() + k.abs()) * EPS;
        r
    }
    fn err(mut self, e: f64) -> Aff {
        self.e = (self.e + e) * (1.0 + EPS);
        self
    }
    fn mul(&self, b: &Aff) -> Aff {
        let mut r = Aff::konst(self.c * b.c);
        let mut sq = 0.0; // sum of |a_i b_i| whose square term is centred
        let (mut ra, mut rb) = (0.0, 0.0);
        let mut m = r.c.abs();
        for i in 0..NV {
            r.v[i] = self.c * b.v[i] + b.c * self.v[i];
            m += (self.c * b.v[i]).abs() + (b.c * self.v[i]).abs();
            let q = self.v[i] * b.v[i];
            r.c += q / 2.0;
            sq += q.abs();
            ra += self.v[i].abs();
            rb += b.v[i].abs();
        }
        // product of the linear parts: squares lie in [0, q], half of it is in the centre
        let quad = (ra * rb - sq / 2.0).max(0.0);
        r.e = (quad + (self.c.abs() + ra) * b.e + (b.c.abs() + rb) * self.e + self.e * b.e) * (1.0 + 8.0 * EPS) + (m + sq) * 2.0 * EPS;
        r
    }
    /// f(self) from f(c), f'(c) and a bound of |f''| over the enclosure
    fn lift(&self, f: f64, df: f64, ddf: f64) -> Aff {
        let r = self.rad();
        let mut x = self.shift(-self.c);
        x.c = 0.0;
        let mut y = x.scale(df);
        y.c = f;
        y.e += ddf * r * r / 2.0 * (1.0 + 8.0 * EPS) + f.abs() * 4.0 * EPS + df.abs() * r * 8.0 * EPS + 1e-300;
        y
    }
    fn join(&self, b: &Aff) -> Aff {
        let mut r = Aff::konst((self.c + b.c) / 2.0);
        let mut d = (self.c - b.c).abs() / 2.0;
        let mut m = r.c.abs();
        for i in 0..NV {
            r.v[i] = (self.v[i] + b.v[i]) / 2.0;
            d += (self.v[i] - b.v[i]).abs() / 2.0;
            m += r.v[i].abs();
        }
        r.e = (d + self.e.max(b.e)) * (1.0 + 4.0 * EPS) + m * EPS;
        r
    }
}

fn neg0(x: f64) -> bool {
    x == 0.0 && x.is_sign_negative()
}
/// total order minimum and maximum (no NaN)
fn tmin(a: f64, b: f64) -> f64 {
    if a < b || (a == b && neg0(a)) {
        a
    } else {
        b
    }
}
fn tmax(a: f64, b: f64) -> f64 {
    if a > b || (a == b && !neg0(a)) {
        a
    } else {
        b
    }
}
fn down32(x: f64) -> f64 {
    let y = x as f32;
    if (y as f64) <= x {
        y as f64
    } else {
        next(y, false) as f64
    }
}
fn up32(x: f64) -> f64 {
    let y = x as f32;
    if (y as f64) >= x {
        y as f64
    } else {
        next(y, true) as f64
    }
}
fn next(x: f32, up: bool) -> f32 {
    if x.is_nan() || (x == f32::INFINITY && up) || (x == f32::NEG_INFINITY && !up) {
        return x;
    }
    if x == 0.0 {
        return if up { f32::from_bits(1) } else { f32::from_bits(0x8000_0001) };
    }
    let b = x.to_bits();
    f32::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
}
pub fn halfulp32(m: f64) -> f64 {
    let m = m.abs();
    if !(m < 3.5e38) {
        return INF;
    }
    let e = ((m.to_bits() >> 52) as i32 - 1023).max(-126);
    2f64.powi(e - 24)
}

fn top_f() -> Ab {
    F { lo: -INF, hi: INF, nan: true, aff: None }
}
fn top_i(w: u32) -> Ab {
    I { ul: 0, uh: mask(w), sl: sx(1u64 << (w - 1), w), sh: (mask(w) >> 1) as i64, kz: 0, aff: None }
}
fn mk_u(w: u32, ul: u64, uh: u64, kz: u64, aff: Option<Aff>) -> Ab {
    if ul == uh {
        return mk_i(w, ul);
    }
    let half = 1u64 << (w - 1);
    let (sl, sh) = if (ul < half) == (uh < half) { (sx(ul, w), sx(uh, w)) } else { (sx(half, w), (half - 1) as i64) };
    let top = if uh == 0 { 0 } else { 64 - uh.leading_zeros() };
    I { ul, uh, sl, sh, kz: kz | (!mask(top) & mask(w)), aff }
}
fn mk_s(w: u32, sl: i64, sh: i64, aff: Option<Aff>) -> Ab {
    // aff encloses the signed value
    if sl >= 0 {
        mk_u(w, sl as u64, sh as u64, 0, aff)
    } else if sh < 0 {
        let m = mask(w);
        mk_u(w, sl as u64 & m, sh as u64 & m, 0, if w <= 32 { aff.map(|a| a.shift((m as f64) + 1.0)) } else { None })
    } else {
        I { ul: 0, uh: mask(w), sl, sh, kz: 0, aff: None }
    }
}
fn mk_i(w: u32, v: u64) -> Ab {
    let a = if w <= 32 { Some(Aff::konst(v as f64)) } else { None };
    I { ul: v, uh: v, sl: sx(v, w), sh: sx(v, w), kz: !v & mask(w), aff: a }
}
fn point_f(t: T, bits: u64) -> Ab {
    let v = if t == T::F32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
    if v.is_nan() {
        F { lo: INF, hi: -INF, nan: true, aff: None }
    } else {
        F { lo: v, hi: v, nan: false, aff: Aff::konst(v).ok() }
    }
}
fn same_point(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
/// the single value of the abstraction, as bits
fn point(a: &Ab, t: T) -> Option<u64> {
    match a {
        B(0) => Some(0),
        B(1) => Some(1),
        B(_) => None,
        I { ul, uh, .. } => (ul == uh).then_some(*ul),
        F { lo, hi, nan, .. } => {
            if *nan || !same_point(*lo, *hi) {
                None
            } else if t == T::F32 {
                Some((*lo as f32).to_bits() as u64)
            } else {
                Some(lo.to_bits())
            }
        }
    }
}

/// integrate the affine range into the interval
fn fin(t: T, lo: f64, hi: f64, nan: bool, aff: Option<Aff>) -> Ab {
    let mut a = aff.and_then(|a| a.ok());
    if nan || !(lo.is_finite() && hi.is_finite()) {
        a = None;
    }
    let (mut lo, mut hi) = (lo, hi);
    if let Some(x) = &a {
        let (mut l, mut h) = (x.lo(), x.hi());
        if t == T::F32 {
            l = down32(l);
            h = up32(h);
        }
        if l > lo {
            lo = if l == 0.0 { -0.0 } else { l };
        }
        if h < hi {
            hi = if h == 0.0 { 0.0 } else { h };
        }
        if lo > hi {
            // disjoint only through rounding of the analysis itself
            std::mem::swap(&mut lo, &mut hi);
        }
    }
    F { lo, hi, nan, aff: a }
}

/// the inputs of a box: raw bit ranges; floats never mix signs, NaN and numbers
#[derive(Clone, Debug)]
pub struct BoxV {
    pub r: Vec<(u64, u64)>,
    pub depth: u32,
}

pub struct Ctx<'a> {
    pub d: &'a Dag,
    /// summaries of callees: enclosure of the result from the argument
    pub dims: Vec<usize>, // variable -> affine dimension, usize::MAX for none
}

pub struct Eval<'a> {
    c: &'a Ctx<'a>,
    val: Vec<Ab>,
    stamp: Vec<u32>,
    cur: u32,
    b: BoxV,
    pub influence: [f64; NV],
    pub nodes: u64,
    /// case split: conditions taken as true or false, and the bounds they put on terms
    assume: Vec<(N, bool)>,
    bounds: Vec<(N, f64, f64, bool)>,
    /// no input of the box satisfies the assumed conditions
    empty: bool,
    /// undecided conditions of the last evaluation
    open: Vec<N>,
}

fn var_ab(t: T, (lo, hi): (u64, u64), dim: usize) -> Ab {
    match t {
        T::I(1) => B(if lo == hi { lo as u8 } else { 2 }),
        T::I(w) => {
            let w = w as u32;
            let aff = if w <= 32 && dim < NV {
                let (c, r) = ((lo as f64 + hi as f64) / 2.0, (hi as f64 - lo as f64) / 2.0);
                let mut a = Aff::konst(c);
                a.v[dim] = r;
                Some(a)
            } else {
                None
            };
            mk_u(w, lo, hi, 0, aff)
        }
        T::F32 => {
            let (a, b) = (f32::from_bits(lo as u32), f32::from_bits(hi as u32));
            if a.is_nan() || b.is_nan() {
                return F { lo: INF, hi: -INF, nan: true, aff: None };
            }
            let (l, h) = if lo >> 31 == 1 { (b as f64, a as f64) } else { (a as f64, b as f64) };
            let aff = if l.is_finite() && h.is_finite() {
                let mut x = Aff::konst((l + h) / 2.0);
                if dim < NV {
                    x.v[dim] = (h - l) / 2.0;
                } else {
                    x.e = (h - l) / 2.0;
                }
                Some(x.err((l.abs() + h.abs()) * EPS))
            } else {
                None
            };
            F { lo: l, hi: h, nan: false, aff }
        }
        T::F64 => top_f(),
    }
}

fn op32(k: K, a: f64, b: f64) -> f64 {
    let (x, y) = (a as f32, b as f32);
    (match k {
        K::FAdd => x + y,
        K::FMul => x * y,
        _ => x / y,
    }) as f64
}
fn op64(k: K, a: f64, b: f64) -> f64 {
    match k {
        K::FAdd => a + b,
        K::FMul => a * b,
        _ => a / b,
    }
}

/// unsigned interval of x & m
fn and_range(w: u32, ul: u64, uh: u64, m: u64) -> (u64, u64) {
    let diff = ul ^ uh;
    let k = 64 - diff.leading_zeros(); // bits below k vary
    let low = mask(k);
    let pre = ul & !low & m;
    // a mask whose varying part keeps the upper bits is monotone
    let ml = m & low;
    let inv = !m & low;
    if inv & (inv.wrapping_add(1)) == 0 || inv == 0 {
        // ml = high ones then zeros within the varying bits
        let _ = w;
        (ul & m, uh & m)
    } else if ml & (ml + 1) == 0 && (ul & low) >> (64 - ml.leading_zeros()) == (uh & low) >> (64 - ml.leading_zeros()) {
        (ul & m, uh & m)
    } else {
        (pre, pre | ml)
    }
}

impl<'a> Eval<'a> {
    pub fn new(c: &'a Ctx<'a>) -> Self {
        Eval { c, val: vec![B(2); c.d.n.len()], stamp: vec![0; c.d.n.len()], cur: 0, b: BoxV { r: vec![], depth: 0 }, influence: [0.0; NV], nodes: 0, assume: vec![], bounds: vec![], empty: false, open: vec![] }
    }
    pub fn run(&mut self, goal: N, b: &BoxV) -> u8 {
        self.b = b.clone();
        self.influence = [0.0; NV];
        self.assume.clear();
        self.bounds.clear();
        let limit = if b.depth < 6 { 0 } else { 3 };
        self.cases(goal, limit)
    }
    fn cases(&mut self, goal: N, limit: u32) -> u8 {
        self.cur += 1;
        self.empty = false;
        self.open.clear();
        let r = match self.ev(goal) {
            B(x) => x,
            _ => 2,
        };
        if self.empty {
            return 0;
        }
        if r != 2 || limit == 0 || self.open.is_empty() {
            return if r == 1 && !self.assume.is_empty() { 2 } else { r };
        }
        let c = self.open[0];
        let (na, nb) = (self.assume.len(), self.bounds.len());
        for v in [true, false] {
            self.suppose(c, v);
            let r = self.cases(goal, limit - 1);
            self.assume.truncate(na);
            self.bounds.truncate(nb);
            if r != 0 {
                return 2;
            }
        }
        0
    }
    fn suppose(&mut self, c: N, v: bool) {
        self.assume.push((c, v));
        let d = self.c.d;
        let nd = &d.n[c as usize];
        match nd.k {
            K::And if v => {
                self.suppose(nd.a[0], true);
                self.suppose(nd.a[1], true);
            }
            K::Or if !v => {
                self.suppose(nd.a[0], false);
                self.suppose(nd.a[1], false);
            }
            K::And | K::Or => {
                // the other operand is already known not to decide it
                for (x, y) in [(nd.a[0], nd.a[1]), (nd.a[1], nd.a[0])] {
                    if matches!(self.ev(x), B(k) if k == (nd.k == K::And) as u8) {
                        self.suppose(y, v);
                        break;
                    }
                }
            }
            K::Xor => {
                if let Some(k) = d.cst(nd.a[1]) {
                    self.suppose(nd.a[0], v != (k == 1));
                }
            }
            K::FOlt | K::FOle => {
                let (x, y) = (nd.a[0], nd.a[1]);
                let strict = (nd.k == K::FOlt) == v;
                let f32s = d.ty(x) == T::F32;
                let num = |n: N| d.cst(n).map(|b| if f32s { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }).filter(|z| !z.is_nan());
                let step = |z: f64, up: bool| if strict && f32s { next(z as f32, up) as f64 } else { z };
                // x < y or x <= y when v, else x >= y or x > y or one is NaN
                if let Some(k) = num(y) {
                    if v {
                        self.bounds.push((x, -INF, step(k, false), true));
                    } else {
                        self.bounds.push((x, step(k, true), INF, false));
                    }
                } else if let Some(k) = num(x) {
                    if v {
                        self.bounds.push((y, step(k, true), INF, true));
                    } else {
                        self.bounds.push((y, -INF, step(k, false), false));
                    }
                }
            }
            _ => {}
        }
    }
    pub fn dump(&self, goal: N) {
        let d = self.c.d;
        let mut seen = std::collections::BTreeSet::new();
        let mut st = vec![goal];
        while let Some(x) = st.pop() {
            if self.stamp[x as usize] == self.cur && seen.insert(x) {
                st.extend(d.n[x as usize].a.iter().copied());
            }
        }
        for x in seen {
            let nd = &d.n[x as usize];
            let v = match &self.val[x as usize] {
                B(b) => format!("B {}", b),
                F { lo, hi, nan, aff } => format!("[{:e}, {:e}]{} {}", lo, hi, if *nan { " nan" } else { "" }, aff.map_or("-".into(), |a| format!("aff {:e} {:?} e {:e}", a.c, a.v, a.e))),
                I { ul, uh, sl, sh, kz, aff } => format!("{:x}..{:x} s {}..{} kz {:x} {}", ul, uh, sl, sh, kz, aff.map_or("-".into(), |a| format!("aff {:e} {:?} e {:e}", a.c, a.v, a.e))),
            };
            let nm = if nd.k == K::Call { d.calls[nd.imm as usize].clone() } else { format!("{:?} {:x}", nd.k, nd.imm) };
            println!("  n{} {:?} {} {:?} = {}", x, nd.t, nm, nd.a, v);
        }
    }
    pub fn ev(&mut self, n: N) -> Ab {
        if self.stamp[n as usize] == self.cur {
            return self.val[n as usize];
        }
        let mut r = self.compute(n);
        if !self.assume.is_empty() {
            if let B(2) = r {
                if let Some(x) = self.assume.iter().find(|x| x.0 == n) {
                    r = B(x.1 as u8);
                }
            } else if let B(k) = r {
                if self.assume.iter().any(|x| x.0 == n && x.1 as u8 != k) {
                    self.empty = true;
                }
            } else if let F { mut lo, mut hi, mut nan, aff } = r {
                for &(m, l, h, num) in &self.bounds {
                    if m == n {
                        if l > lo {
                            lo = if l == 0.0 { -0.0 } else { l };
                        }
                        if h < hi {
                            hi = if h == 0.0 { 0.0 } else { h };
                        }
                        if num {
                            nan = false;
                        }
                        if lo > hi && !nan {
                            self.empty = true;
                        }
                    }
                }
                if lo > hi {
                    lo = INF;
                    hi = -INF;
                }
                r = F { lo, hi, nan, aff: if lo > hi { None } else { aff } };
            }
        }
        self.nodes += 1;
        self.stamp[n as usize] = self.cur;
        self.val[n as usize] = r;
        r
    }
    fn fcmp(&mut self, k: K, same: bool, a: &Ab, b: &Ab) -> u8 {
        let (F { lo: al, hi: ah, nan: an, aff: aa }, F { lo: bl, hi: bh, nan: bn, aff: ba }) = (a, b) else { return 2 };
        if al > ah || bl > bh {
            return 0; // only NaN
        }
        let nan = *an || *bn;
        let yes = if nan { 2 } else { 1 };
        if same {
            return match k {
                K::FOlt => 0,
                _ => yes,
            };
        }
        let (mut dl, mut dh) = (-INF, INF);
        if let (Some(x), Some(y)) = (aa, ba) {
            let mut z = x.add(&y.scale(-1.0));
            // exact cancellation of equal forms must not leave rounding noise
            if x.c == y.c && x.v == y.v && x.e == 0.0 && y.e == 0.0 {
                z = Aff::konst(0.0);
            }
            dl = z.lo();
            dh = z.hi();
            let undecided = match k {
                K::FOlt => !(dh < 0.0 || dl >= 0.0),
                K::FOle => !(dh <= 0.0 || dl > 0.0),
                _ => !(dl > 0.0 || dh < 0.0),
            };
            if undecided {
                let s = 1.0 / (z.rad() + 1e-300);
                for i in 0..NV {
                    // first-order influence, and that of the whole terms through the error part
                    let q = z.v[i].abs() * s + 0.05 * (x.v[i].abs() + y.v[i].abs()) / (x.rad() + y.rad() + 1e-300);
                    if q > self.influence[i] {
                        self.influence[i] = q;
                    }
                }
            }
        }
        match k {
            K::FOlt => {
                if ah < bl || dh < 0.0 {
                    yes
                } else if al >= bh || dl >= 0.0 {
                    0
                } else {
                    2
                }
            }
            K::FOle => {
                if ah <= bl || dh <= 0.0 {
                    yes
                } else if al > bh || dl > 0.0 {
                    0
                } else {
                    2
                }
            }
            _ => {
                if ah < bl || bh < al || dl > 0.0 || dh < 0.0 {
                    0
                } else if al == ah && bl == bh && al == bl {
                    yes
                } else {
                    2
                }
            }
        }
    }
    fn compute(&mut self, n: N) -> Ab {
        let d = self.c.d;
        let nd = &d.n[n as usize];
        let t = nd.t;
        match nd.k {
            K::Const => {
                return match t {
                    T::I(1) => B(nd.imm as u8),
                    T::I(w) => mk_i(w as u32, nd.imm),
                    _ => point_f(t, nd.imm),
                }
            }
            K::Var => {
                let i = nd.imm as usize;
                return var_ab(t, self.b.r[i], self.c.dims[i]);
            }
            K::And | K::Or if t == T::I(1) => {
                let absorb = if nd.k == K::And { 0 } else { 1 };
                let B(x) = self.ev(nd.a[0]) else { return B(2) };
                if x == absorb {
                    return B(x);
                }
                let B(y) = self.ev(nd.a[1]) else { return B(2) };
                if y == absorb {
                    return B(y);
                }
                return B(if x == 2 || y == 2 { 2 } else { 1 - absorb });
            }
            K::Xor if t == T::I(1) => {
                let B(x) = self.ev(nd.a[0]) else { return B(2) };
                let B(y) = self.ev(nd.a[1]) else { return B(2) };
                return B(if x == 2 || y == 2 { 2 } else { x ^ y });
            }
            K::Ite => {
                let B(c) = self.ev(nd.a[0]) else { return B(2) };
                if c != 2 {
                    return self.ev(nd.a[if c == 1 { 1 } else { 2 }]);
                }
                self.open.push(nd.a[0]);
                let a = self.ev(nd.a[1]);
                let b = self.ev(nd.a[2]);
                return match (a, b) {
                    (B(x), B(y)) => B(if x == y { x } else { 2 }),
                    (F { lo: l1, hi: h1, nan: n1, aff: a1 }, F { lo: l2, hi: h2, nan: n2, aff: a2 }) => {
                        let aff = match (a1, a2) {
                            (Some(x), Some(y)) => x.join(&y).ok(),
                            _ => None,
                        };
                        if l1 > h1 {
                            return F { lo: l2, hi: h2, nan: true, aff: None };
                        }
                        if l2 > h2 {
                            return F { lo: l1, hi: h1, nan: true, aff: None };
                        }
                        F { lo: tmin(l1, l2), hi: tmax(h1, h2), nan: n1 || n2, aff: if n1 || n2 { None } else { aff } }
                    }
                    (I { ul: a0, uh: a1, sl: a2, sh: a3, kz: a4, aff: a5 }, I { ul: b0, uh: b1, sl: b2, sh: b3, kz: b4, aff: b5 }) => {
                        let aff = match (a5, b5) {
                            (Some(x), Some(y)) => x.join(&y).ok(),
                            _ => None,
                        };
                        I { ul: a0.min(b0), uh: a1.max(b1), sl: a2.min(b2), sh: a3.max(b3), kz: a4 & b4, aff }
                    }
                    _ => B(2),
                };
            }
            _ => {}
        }
        let mut args: [Ab; 2] = [B(2), B(2)];
        if nd.a.len() > 2 {
            return if t.is_f() { top_f() } else if t == T::I(1) { B(2) } else { top_i(t.bits()) };
        }
        for i in 0..nd.a.len() {
            args[i] = self.ev(nd.a[i]);
        }
        let (a, b) = (args[0], args[1]);
        // single values: exact semantics
        if nd.k != K::Call {
            let mut pv = [0u64; 2];
            let mut all = true;
            for i in 0..nd.a.len() {
                match point(&args[i], d.ty(nd.a[i])) {
                    Some(x) => pv[i] = x,
                    None => {
                        all = false;
                        break;
                    }
                }
            }
            if all {
                let mut ts = [T::I(1); 2];
                for i in 0..nd.a.len() {
                    ts[i] = d.ty(nd.a[i]);
                }
                if let Some(v) = eval_op(nd.k, t, nd.imm, &ts[..nd.a.len()], &pv[..nd.a.len()]) {
                    return match t {
                        T::I(1) => B(v as u8),
                        T::I(w) => mk_i(w as u32, v),
                        _ => point_f(t, v),
                    };
                }
            }
        }
        let w = t.bits();
        match nd.k {
            K::FOlt | K::FOle | K::FOeq => return B(self.fcmp(nd.k, nd.a[0] == nd.a[1], &a, &b)),
            K::Call => return self.call(&d.calls[nd.imm as usize], t, &args[..nd.a.len()]),
            K::ToBits if d.k(nd.a[0]) == K::Var => {
                let i = d.n[nd.a[0] as usize].imm as usize;
                let (l, h) = self.b.r[i];
                let x = self.tobits(&a);
                if let I { aff, .. } = x {
                    return mk_u(w, l, h, 0, aff);
                }
                return mk_u(w, l, h, 0, None);
            }
            K::ToBits => return self.tobits(&a),
            K::OfBits => return of_bits(&a),
            K::FAdd | K::FMul | K::FDiv => {
                let mut r = farith(nd.k, t, &a, &b, nd.a[0] == nd.a[1]);
                if nd.k == K::FDiv {
                    // a / |a|
                    let (x, y) = (self.chosen(nd.a[0]), self.chosen(nd.a[1]));
                    let ay = if d.k(y) == K::FAbs { self.chosen(d.n[y as usize].a[0]) } else { y };
                    if x == ay || (d.k(x) == K::FAbs && self.chosen(d.n[x as usize].a[0]) == ay) {
                        if let (F { lo, hi, nan: false, .. }, F { lo: yl, hi: yh, .. }) = (a, b) {
                            if (lo > 0.0 || hi < 0.0) && (yl > 0.0 || yh < 0.0) && lo.is_finite() && hi.is_finite() {
                                let v = if (lo > 0.0) == (yl > 0.0) { 1.0 } else { -1.0 };
                                return F { lo: v, hi: v, nan: false, aff: Some(Aff::konst(v)) };
                            }
                        }
                    }
                    // a / (a + something not negative)
                    if let (F { lo: al, .. }, F { lo, hi, nan: false, aff }) = (a, r) {
                        if al >= 0.0 && hi > 1.0 && lo <= 1.0 && self.dominates(nd.a[1], nd.a[0], 0) {
                            r = F { lo, hi: 1.0, nan: false, aff };
                        }
                    }
                }
                return r;
            }
            K::FNeg => {
                let F { lo, hi, nan, aff } = a else { return top_f() };
                return F { lo: -hi, hi: -lo, nan, aff: aff.map(|x| Aff { c: -x.c, v: x.v.map(|y| -y), e: x.e }) };
            }
            K::FAbs => return fabs(&a),
            K::FCopysign => {
                let F { lo, hi, nan, .. } = b else { return top_f() };
                let m = fabs(&a);
                let F { lo: ml, hi: mh, nan: mn, aff } = m else { return top_f() };
                if nan || lo > hi || (!neg0(lo) && lo < 0.0 && hi >= 0.0) || (neg0(lo) && !neg0(hi)) {
                    return F { lo: -mh, hi: mh, nan: mn, aff: None };
                }
                if hi < 0.0 || neg0(hi) {
                    return F { lo: -mh, hi: -ml, nan: mn, aff: aff.map(|x| x.scale(-1.0)) };
                }
                return m;
            }
            K::FRem => {
                let (F { lo, hi, nan, .. }, F { lo: bl, hi: bh, nan: bn, .. }) = (a, b) else { return top_f() };
                let m = bl.abs().max(bh.abs()).min(lo.abs().max(hi.abs()));
                let zero = bl <= 0.0 && bh >= 0.0;
                return F { lo: if lo < 0.0 { -m } else { -0.0 }, hi: if hi > 0.0 { m } else { 0.0 }, nan: nan || bn || zero || !(lo.is_finite() && hi.is_finite()), aff: None };
            }
            K::FSqrt => {
                let F { lo, hi, nan, .. } = a else { return top_f() };
                return F { lo: lo.max(0.0).sqrt() * (1.0 - 1e-7), hi: hi.max(0.0).sqrt() * (1.0 + 1e-7), nan: nan || lo < 0.0, aff: None };
            }
            K::FpExt => {
                let F { lo, hi, nan, aff } = a else { return top_f() };
                return F { lo, hi, nan, aff };
            }
            K::FpTrunc => {
                let F { lo, hi, nan, aff } = a else { return top_f() };
                let (l, h) = ((lo as f32) as f64, (hi as f32) as f64);
                return fin(t, l, h, nan, aff.map(|x| x.err(halfulp32(l.abs().max(h.abs())))));
            }
            K::SiToFp | K::UiToFp => {
                let I { ul, uh, sl, sh, aff, .. } = a else { return top_f() };
                let signed = nd.k == K::SiToFp;
                let aw = d.ty(nd.a[0]).bits();
                let conv = |x: f64| if t == T::F32 { (x as f32) as f64 } else { x };
                let (l, h, af) = if signed {
                    (conv(sl as f64), conv(sh as f64), if sl >= 0 { aff } else if sh < 0 { aff.map(|x| x.shift(-(mask(aw) as f64) - 1.0)) } else { None })
                } else {
                    (conv(ul as f64), conv(uh as f64), aff)
                };
                let m = l.abs().max(h.abs());
                let e = if t == T::F32 && m > 16777216.0 { halfulp32(m) } else { 0.0 };
                return fin(t, l, h, false, if aw <= 32 { af.map(|x| x.err(e)) } else { None });
            }
            K::FpToSi | K::FpToUi => {
                let F { lo, hi, nan, .. } = a else { return top_i(w) };
                let signed = nd.k == K::FpToSi;
                if lo > hi {
                    return mk_i(w, 0);
                }
                let (l, h) = (fp_to_int(lo, w, signed), fp_to_int(hi, w, signed));
                if signed {
                    let (mut l, mut h) = (sx(l, w), sx(h, w));
                    if nan {
                        l = l.min(0);
                        h = h.max(0);
                    }
                    if l == h {
                        return mk_i(w, l as u64 & mask(w));
                    }
                    return mk_s(w, l, h, None);
                }
                return mk_u(w, if nan { 0 } else { l }, h, 0, None);
            }
            _ => {}
        }
        self.int_op(nd, t, w, &a, &b)
    }
    fn int_op(&mut self, nd: &Node, t: T, w: u32, a: &Ab, b: &Ab) -> Ab {
        let d = self.c.d;
        // one-bit operands are treated as integers
        let conv = |x: &Ab| match x {
            B(v) => {
                if *v < 2 {
                    mk_i(1, *v as u64)
                } else {
                    mk_u(1, 0, 1, 0, None)
                }
            }
            y => *y,
        };
        let (a, b) = (conv(a), conv(b));
        let unknown = if t == T::I(1) { B(2) } else { top_i(w) };
        let I { ul, uh, sl, sh, kz, aff } = a else { return unknown };
        let aw = d.ty(nd.a[0]).bits();
        if nd.a.len() == 1 {
            let r = match nd.k {
                K::Zext => mk_u(w, ul, uh, kz | (mask(w) & !mask(aw)), aff),
                K::Sext => {
                    if sl >= 0 {
                        mk_u(w, ul, uh, kz, aff)
                    } else {
                        mk_s(w, sl, sh, None)
                    }
                }
                K::Extract => {
                    let (l, h) = (ul >> nd.imm, uh >> nd.imm);
                    if h - l <= mask(w) && (l & !mask(w)) == (h & !mask(w)) {
                        let base = l & !mask(w);
                        let af = if nd.imm == 0 { aff.map(|x| x.shift(-(base as f64))) } else { None };
                        mk_u(w, l & mask(w), h & mask(w), (kz >> nd.imm) & mask(w), af)
                    } else {
                        mk_u(w, 0, mask(w), (kz >> nd.imm) & mask(w), None)
                    }
                }
                K::Ctlz => {
                    let f = |x: u64| if x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 };
                    mk_u(w, f(uh), f(ul), 0, None)
                }
                K::Cttz | K::Ctpop => mk_u(w, 0, w as u64, 0, None),
                _ => unknown,
            };
            if t == T::I(1) {
                return match r {
                    I { ul, uh, .. } if ul == uh => B(ul as u8 & 1),
                    B(x) => B(x),
                    _ => B(2),
                };
            }
            return r;
        }
        let I { ul: bl, uh: bh, .. } = b else { return unknown };
        if nd.k == K::And && ul != uh && bl != bh {
            // x & !(x & mask), the mask being constant over the box
            for (x, n) in [(nd.a[0], nd.a[1]), (nd.a[1], nd.a[0])] {
                if d.k(n) == K::Xor && self.npoint(d.n[n as usize].a[1]) == Some(mask(w)) {
                    if let Some((src, mm, 0)) = self.as_mask(d.n[n as usize].a[0], 0) {
                        if src == x {
                            let v = self.ev(x);
                            let and = Node { k: K::And, ..nd.clone() };
                            return self.int_op_c(&and, t, w, &v, &mk_i(w, !mm & mask(w)));
                        }
                    }
                }
            }
        }
        if nd.k == K::Sub && ul != uh && bl != bh {
            if let Some((src, mm, 0)) = self.as_mask(nd.a[1], 0) {
                if src == nd.a[0] {
                    let and = Node { k: K::And, ..nd.clone() };
                    return self.int_op_c(&and, t, w, &a, &mk_i(w, !mm & mask(w)));
                }
            }
        }
        self.int_op_c(nd, t, w, &a, &b)
    }
    /// the value of a node when it is a single one on this box
    fn npoint(&mut self, n: N) -> Option<u64> {
        let v = self.ev(n);
        point(&v, self.c.d.ty(n))
    }
    /// node = (src & mask) shifted left by s (right when negative), with nothing of the masked value lost
    fn as_mask(&mut self, n: N, depth: u32) -> Option<(N, u64, i32)> {
        let d = self.c.d;
        let w = match d.ty(n) {
            T::I(w) if w > 1 => w as u32,
            _ => return None,
        };
        if depth > 6 {
            return None;
        }
        let nd = &d.n[n as usize];
        match nd.k {
            K::And => {
                let (x, c) = match (self.npoint(nd.a[0]), self.npoint(nd.a[1])) {
                    (_, Some(c)) => (nd.a[0], c),
                    (Some(c), _) => (nd.a[1], c),
                    _ => return None,
                };
                let (src, m, s) = self.as_mask(x, depth + 1).unwrap_or((x, mask(w), 0));
                let c0 = if s >= 0 { c >> s } else { (c << -s) & mask(w) };
                Some((src, m & c0, s))
            }
            K::Shl | K::LShr => {
                let c = self.npoint(nd.a[1])?;
                if c >= w as u64 {
                    return None;
                }
                let (src, m, s) = self.as_mask(nd.a[0], depth + 1).unwrap_or((nd.a[0], mask(w), 0));
                let s2 = if nd.k == K::Shl { s + c as i32 } else { s - c as i32 };
                if s2.unsigned_abs() >= w {
                    return None;
                }
                // the bits pushed out disappear from the mask
                let cur = if s >= 0 { (m << s) & mask(w) } else { m >> -s };
                let kept = if nd.k == K::Shl { (((cur << c) & mask(w)) >> c, s) } else { ((cur >> c) << c, s) };
                let m2 = if s >= 0 { kept.0 >> s } else { (kept.0 << -s) & mask(w) };
                Some((src, m2 & m, s2))
            }
            _ => None,
        }
    }
    /// the branch taken when conditional terms are decided on this box
    fn chosen(&mut self, mut n: N) -> N {
        let d = self.c.d;
        loop {
            let nd = &d.n[n as usize];
            if nd.k == K::Ite {
                if let B(c) = self.ev(nd.a[0]) {
                    if c != 2 {
                        n = nd.a[if c == 1 { 1 } else { 2 }];
                        continue;
                    }
                }
            }
            if nd.k == K::FAbs {
                // |x| of a positive term
                if matches!(self.ev(nd.a[0]), F { lo, nan: false, .. } if lo > 0.0) {
                    n = nd.a[0];
                    continue;
                }
            }
            return n;
        }
    }
    /// b >= a for all inputs, by the monotony of rounded addition
    fn dominates(&mut self, b: N, a: N, depth: u32) -> bool {
        if a == b {
            return true;
        }
        if depth > 4 || self.c.d.k(b) != K::FAdd {
            return false;
        }
        let (p, q) = (self.c.d.n[b as usize].a[0], self.c.d.n[b as usize].a[1]);
        for (x, y) in [(p, q), (q, p)] {
            if matches!(self.ev(y), F { lo, nan: false, .. } if lo >= 0.0) && self.dominates(x, a, depth + 1) {
                return true;
            }
        }
        false
    }
    fn int_op_c(&mut self, nd: &Node, t: T, w: u32, a: &Ab, b: &Ab) -> Ab {
        let d = self.c.d;
        let unknown = if t == T::I(1) { B(2) } else { top_i(w) };
        let (mut a, mut b) = (*a, *b);
        if matches!(nd.k, K::And | K::Or | K::Xor) {
            if let (I { ul: x, uh: y, .. }, I { ul: p, uh: q, .. }) = (a, b) {
                if x == y && p != q {
                    std::mem::swap(&mut a, &mut b);
                }
            }
        }
        let I { ul, uh, sl, sh, kz, aff } = a else { return unknown };
        let I { ul: bl, uh: bh, sl: bsl, sh: bsh, kz: bkz, aff: baff } = b else { return unknown };
        let aw = d.ty(nd.a[0]).bits();
        let _ = aw;
        let bc = if bl == bh { Some(bl) } else { None };
        let ac = if ul == uh { Some(ul) } else { None };
        let m = mask(w);
        let full = 2f64.powi(w as i32);
        let cmp = |yes: bool, no: bool| B(if yes { 1 } else if no { 0 } else { 2 });
        match nd.k {
            K::Eq => {
                let same = nd.a[0] == nd.a[1];
                let disjoint = uh < bl || bh < ul || sh < bsl || bsh < sl || ac.map_or(false, |c| c & bkz != 0) || bc.map_or(false, |c| c & kz != 0);
                return cmp(same || (ac.is_some() && ac == bc), disjoint);
            }
            K::Ult => return cmp(uh < bl, ul >= bh),
            K::Ule => return cmp(uh <= bl, ul > bh),
            K::Slt => return cmp(sh < bsl, sl >= bsh),
            K::Sle => return cmp(sh <= bsl, sl > bsh),
            _ => {}
        }
        let r = match nd.k {
            K::Add => {
                let z = match (aff, baff) {
                    (Some(x), Some(y)) => Some(x.add(&y)),
                    _ => None,
                };
                let (l, h) = (ul as u128 + bl as u128, uh as u128 + bh as u128);
                let lim = m as u128 + 1;
                let u = if h < lim {
                    mk_u(w, l as u64, h as u64, 0, z)
                } else if l >= lim {
                    mk_u(w, (l - lim) as u64, (h - lim) as u64, 0, z.map(|x| x.shift(-full)))
                } else {
                    top_i(w)
                };
                self.meet_s(w, u, sl as i128 + bsl as i128, sh as i128 + bsh as i128)
            }
            K::Sub => {
                let z = match (aff, baff) {
                    (Some(x), Some(y)) => Some(x.add(&y.scale(-1.0))),
                    _ => None,
                };
                let (l, h) = (ul as i128 - bh as i128, uh as i128 - bl as i128);
                let u = if l >= 0 {
                    mk_u(w, l as u64, h as u64, 0, z)
                } else if h < 0 {
                    mk_u(w, (l + m as i128 + 1) as u64, (h + m as i128 + 1) as u64, 0, z.map(|x| x.shift(full)))
                } else {
                    top_i(w)
                };
                self.meet_s(w, u, sl as i128 - bsh as i128, sh as i128 - bsl as i128)
            }
            K::Mul => {
                let (l, h) = (ul as u128 * bl as u128, uh as u128 * bh as u128);
                let u = if h <= m as u128 { mk_u(w, l as u64, h as u64, 0, None) } else { top_i(w) };
                let p = [sl as i128 * bsl as i128, sl as i128 * bsh as i128, sh as i128 * bsl as i128, sh as i128 * bsh as i128];
                self.meet_s(w, u, *p.iter().min().unwrap(), *p.iter().max().unwrap())
            }
            K::UDiv if bl > 0 => mk_u(w, ul / bh, uh / bl, 0, None),
            K::URem if bl > 0 => {
                if uh < bl {
                    mk_u(w, ul, uh, kz, aff)
                } else {
                    mk_u(w, 0, uh.min(bh - 1), 0, None)
                }
            }
            K::SDiv if bsl > 0 => mk_s(w, (sl / bsl).min(sl / bsh), (sh / bsl).max(sh / bsh), None),
            K::SRem if bsl > 0 => mk_s(w, if sl < 0 { (-(bsh - 1)).max(sl) } else { 0 }, if sh > 0 { (bsh - 1).min(sh) } else { 0 }, None),
            K::And => {
                if let Some(c) = bc {
                    let (l, h) = and_range(w, ul, uh, c);
                    // the cleared bits are constant over the range: a shift of the affine form
                    let k = 64 - (ul ^ uh).leading_zeros();
                    let cleared = !c & m;
                    let af = if cleared & mask(k) & !kz == 0 { aff.map(|x| x.shift(-((ul & cleared & !mask(k)) as f64))) } else { None };
                    mk_u(w, l, h, kz | (!c & m), af)
                } else {
                    mk_u(w, 0, uh.min(bh), kz | bkz, None)
                }
            }
            K::Or => {
                if (!kz & !bkz & m) == 0 {
                    let z = match (aff, baff) {
                        (Some(x), Some(y)) => Some(x.add(&y)),
                        _ => None,
                    };
                    mk_u(w, ul + bl, (uh + bh).min(m), kz & bkz, z)
                } else {
                    let k = (kz & bkz) & m;
                    let top = 64 - (uh | bh).leading_zeros();
                    mk_u(w, ul.max(bl), mask(top) & m & !k, k, None)
                }
            }
            K::Xor => {
                if let Some(c) = bc {
                    let k = 64 - (ul ^ uh).leading_zeros();
                    if c & mask(k) == 0 {
                        // only constant bits flip
                        let (l, h) = (ul ^ c, uh ^ c);
                        mk_u(w, l, h, 0, aff.map(|x| x.shift(l as f64 - ul as f64)))
                    } else if c == m {
                        mk_u(w, m - uh, m - ul, 0, aff.map(|x| x.scale(-1.0).shift(m as f64)))
                    } else {
                        top_i(w)
                    }
                } else if (!kz & !bkz & m) == 0 {
                    mk_u(w, ul + bl, (uh + bh).min(m), kz & bkz, None)
                } else {
                    top_i(w)
                }
            }
            K::Shl => {
                if let Some(c) = bc {
                    if c >= w as u64 {
                        mk_i(w, 0)
                    } else {
                        let keep = mask(w - c as u32);
                        if (ul & !keep) == (uh & !keep) {
                            let (l, h) = ((ul & keep) << c, (uh & keep) << c);
                            let base = (ul & !keep) as f64;
                            mk_u(w, l, h, ((kz << c) | mask(c as u32)) & m, aff.map(|x| x.shift(-base).scale(2f64.powi(c as i32))))
                        } else {
                            mk_u(w, 0, m & !mask(c as u32), mask(c as u32), None)
                        }
                    }
                } else {
                    top_i(w)
                }
            }
            K::LShr => {
                if let Some(c) = bc {
                    if c >= w as u64 {
                        mk_i(w, 0)
                    } else {
                        let kk = (kz >> c) | (m & !(m >> c));
                        // the dropped bits
                        mk_u(w, ul >> c, uh >> c, kk, aff.map(|x| if c == 0 { x } else { x.scale(2f64.powi(-(c as i32))).shift(-0.5).err(0.5) }))
                    }
                } else if bh < w as u64 {
                    mk_u(w, ul >> bh, uh >> bl, 0, None)
                } else {
                    mk_u(w, 0, uh, 0, None)
                }
            }
            K::AShr => {
                if let Some(c) = bc {
                    let c = c.min(w as u64 - 1);
                    mk_s(w, sl >> c, sh >> c, None)
                } else {
                    top_i(w)
                }
            }
            K::Concat => {
                let lw = d.ty(nd.a[1]).bits();
                if let Some(c) = ac {
                    mk_u(w, (c << lw) | bl, (c << lw) | bh, 0, baff.map(|x| x.shift((c << lw) as f64)))
                } else {
                    mk_u(w, (ul << lw) | 0, (uh << lw) | mask(lw), 0, None)
                }
            }
            _ => unknown,
        };
        if t == T::I(1) {
            return match r {
                I { ul, uh, .. } if ul == uh => B(ul as u8 & 1),
                B(x) => B(x),
                _ => B(2),
            };
        }
        // low zero bits survive addition and subtraction
        let mut r = r;
        if matches!(nd.k, K::Add | K::Sub) {
            let tz = (!(kz & bkz) & m).trailing_zeros();
            if let I { kz, ul, uh, .. } = &mut r {
                if tz > 0 && tz < 64 {
                    *kz |= mask(tz) & m;
                    *uh &= !mask(tz);
                    *ul = (*ul).min(*uh);
                }
            }
        }
        // the affine range can tighten the interval
        if let I { ul, uh, kz, aff: Some(x), .. } = r {
            let (l, h) = (x.lo().floor().max(0.0), x.hi().ceil().max(0.0));
            let (l, h) = (l as u64, h as u64);
            if (l > ul || h < uh) && l.max(ul) <= h.min(uh) {
                return mk_u(w, l.max(ul), h.min(uh), kz, Some(x));
            }
        }
        r
    }
    /// combine an unsigned enclosure with exact signed bounds that did not wrap
    fn meet_s(&self, w: u32, u: Ab, l: i128, h: i128) -> Ab {
        let (mn, mx) = (sx(1u64 << (w - 1), w) as i128, (mask(w) >> 1) as i128);
        if l < mn || h > mx {
            return u;
        }
        let (l, h) = (l as i64, h as i64);
        match u {
            I { ul, uh, kz, aff, .. } if ul <= uh && !(ul == 0 && uh == mask(w)) => {
                if l >= 0 || h < 0 {
                    let (a, b) = (l as u64 & mask(w), h as u64 & mask(w));
                    mk_u(w, a.max(ul), b.min(uh), kz, aff)
                } else {
                    I { ul, uh, sl: l, sh: h, kz, aff }
                }
            }
            _ => {
                if l == h {
                    mk_i(w, l as u64 & mask(w))
                } else {
                    mk_s(w, l, h, None)
                }
            }
        }
    }
    fn tobits(&self, a: &Ab) -> Ab {
        let F { lo, hi, nan, aff } = *a else { return top_i(32) };
        if lo > hi {
            return top_i(32);
        }
        if nan {
            return top_i(32);
        }
        let neg = hi < 0.0 || neg0(hi);
        let pos = lo > 0.0 || (lo == 0.0 && !neg0(lo));
        if !neg && !pos {
            return top_i(32);
        }
        let (ml, mh) = if neg { (-hi, -lo) } else { (lo, hi) };
        let (bl, bh) = ((ml as f32).to_bits() as u64, (mh as f32).to_bits() as u64);
        let base = if neg { 0x8000_0000u64 } else { 0 };
        let af = aff.and_then(|x| {
            let y = if neg { x.scale(-1.0) } else { x };
            bits_affine(&y, bl, bh)
        });
        mk_u(32, bl + base, bh + base, 0, af.map(|x| if neg { x.shift(2147483648.0) } else { x }))
    }
    fn call(&mut self, name: &str, t: T, a: &[Ab]) -> Ab {
        match (name, a) {
            ("math_floor" | "ref_floorf", [F { lo, hi, nan, aff }]) => round_fn(f64::floor, 0.5, *lo, *hi, *nan, aff),
            ("math_ceil" | "ref_ceilf", [F { lo, hi, nan, aff }]) => round_fn(f64::ceil, -0.5, *lo, *hi, *nan, aff),
            ("math_trunc" | "ref_truncf", [F { lo, hi, nan, aff }]) => round_fn(f64::trunc, 0.0, *lo, *hi, *nan, aff),
            ("math_round" | "ref_roundf", [F { lo, hi, nan, aff }]) => round_fn(f64::round, 0.0, *lo, *hi, *nan, aff),
            ("math_fract", [F { lo, hi, nan, aff }]) => {
                // x - trunc(x), exact; the sign is that of x, infinities give zero
                if lo > hi {
                    return F { lo: INF, hi: -INF, nan: true, aff: None };
                }
                let (l, h) = (lo.trunc(), hi.trunc());
                if same_point(*lo, *hi) && lo.is_finite() {
                    let v = (lo - l).copysign(*lo);
                    return F { lo: v, hi: v, nan: *nan, aff: if *nan { None } else { Some(Aff::konst(v)) } };
                }
                if l == h && lo.is_finite() {
                    let mut z = (lo - l, hi - l);
                    if z.0 == 0.0 {
                        z.0 = z.0.copysign(*lo);
                    }
                    if z.1 == 0.0 {
                        z.1 = z.1.copysign(*hi);
                    }
                    return F { lo: z.0, hi: z.1, nan: *nan, aff: if *nan { None } else { aff.map(|x| x.shift(-l)) } };
                }
                if *lo >= 8388608.0 || *hi <= -8388608.0 {
                    // no fractional part, infinities included
                    let v = 0f64.copysign(*lo);
                    return F { lo: v, hi: v, nan: *nan, aff: if *nan { None } else { Some(Aff::konst(v)) } };
                }
                let one = 1.0 - 2f64.powi(-24);
                F { lo: if *lo < 0.0 || neg0(*lo) { -one } else { 0.0 }, hi: if *hi > 0.0 || (*hi == 0.0 && !neg0(*hi)) { one } else { -0.0 }, nan: *nan, aff: None }
            }
            (n, _) if n.starts_with("ref_") => crate::reffn::enclose(n, a),
            (n, _) if n.starts_with("sum_") => crate::reffn::summary(n, a),
            _ => {
                if t.is_f() {
                    top_f()
                } else {
                    top_i(t.bits())
                }
            }
        }
    }
}

fn round_fn(f: fn(f64) -> f64, off: f64, lo: f64, hi: f64, nan: bool, aff: &Option<Aff>) -> Ab {
    if lo > hi {
        return F { lo: INF, hi: -INF, nan: true, aff: None };
    }
    let (mut l, mut h) = (f(lo), f(hi));
    let af = if l == h {
        Aff::konst(l).ok()
    } else {
        aff.map(|x| x.shift(-off).err(if off == 0.0 { 1.0 } else { 0.5 }))
    };
    if !same_point(lo, hi) {
        if l == 0.0 {
            l = -0.0;
        }
        if h == 0.0 {
            h = 0.0;
        }
    }
    F { lo: l, hi: h, nan, aff: if nan || !l.is_finite() || !h.is_finite() { None } else { af } }
}

/// affine form of the bits of a positive float whose bits lie in [bl, bh]
fn bits_affine(x: &Aff, bl: u64, bh: u64) -> Option<Aff> {
    let (el, eh) = (bl >> 23, bh >> 23);
    if bh == (eh << 23) && el + 1 == eh && bl != bh {
        // the upper end of the binade belongs to its linear piece
    } else if el != eh {
        if eh - el > 8 || eh >= 255 {
            return None;
        }
        // concave and piecewise linear: the chord and its largest distance, attained at a kink
        let (l, h) = (f32::from_bits(bl as u32) as f64, f32::from_bits(bh as u32) as f64);
        let k = (bh - bl) as f64 / (h - l);
        let mut dev: f64 = 0.0;
        for e in el + 1..=eh {
            let p = f32::from_bits((e << 23) as u32) as f64;
            dev = dev.max((e << 23) as f64 - (bl as f64 + k * (p - l)));
        }
        let dev = dev * (1.0 + 1e-12) + 1e-6;
        return x.shift(-l).scale(k).shift(bl as f64 + dev / 2.0).err(dev / 2.0).ok();
    }
    if el >= 255 {
        return None;
    }
    if el == 0 {
        return x.scale(2f64.powi(149)).ok();
    }
    let e = el as i32 - 127;
    // bits = el * 2^23 + (x / 2^e - 1) * 2^23
    let r = x.scale(2f64.powi(23 - e)).shift((el as f64 - 1.0) * 8388608.0);
    r.ok()
}

fn of_bits(a: &Ab) -> Ab {
    let I { ul, uh, aff, .. } = *a else { return top_f() };
    let fl = |b: u64| f32::from_bits(b as u32) as f64;
    let half = |l: u64, h: u64| -> Option<(f64, f64, bool)> {
        // magnitudes, possibly NaN above infinity
        if l > 0x7f80_0000 {
            return None;
        }
        Some((fl(l), fl(h.min(0x7f80_0000)), h > 0x7f80_0000))
    };
    let s = 0x8000_0000u64;
    if uh < s {
        match half(ul, uh) {
            None => F { lo: INF, hi: -INF, nan: true, aff: None },
            Some((l, h, n)) => {
                let af = if n { None } else { aff.and_then(|x| float_affine(&x, ul, uh)) };
                fin(T::F32, l, h, n, af)
            }
        }
    } else if ul >= s {
        match half(ul - s, uh - s) {
            None => F { lo: INF, hi: -INF, nan: true, aff: None },
            Some((l, h, n)) => {
                let af = if n { None } else { aff.and_then(|x| float_affine(&x.shift(-2147483648.0), ul - s, uh - s)) };
                fin(T::F32, -h, -l, n, af.map(|x| x.scale(-1.0)))
            }
        }
    } else {
        top_f()
    }
}
/// affine form of the positive float with these bits
fn float_affine(x: &Aff, bl: u64, bh: u64) -> Option<Aff> {
    let (el, eh) = (bl >> 23, bh >> 23);
    if el != eh && !(bh == (eh << 23) && el + 1 == eh) {
        if eh - el > 8 || eh >= 255 {
            return None;
        }
        let (l, h) = (f32::from_bits(bl as u32) as f64, f32::from_bits(bh as u32) as f64);
        let k = (h - l) / (bh - bl) as f64;
        let mut dev: f64 = 0.0;
        for e in el + 1..=eh {
            let p = f32::from_bits((e << 23) as u32) as f64;
            dev = dev.max(l + k * ((e << 23) as f64 - bl as f64) - p);
        }
        let dev = dev * (1.0 + 1e-12) + h * 1e-15;
        return x.shift(-(bl as f64)).scale(k).shift(l - dev / 2.0).err(dev / 2.0).ok();
    }
    if el >= 255 {
        return None;
    }
    if el == 0 {
        return x.scale(2f64.powi(-149)).ok();
    }
    let e = el as i32 - 127;
    x.shift(-(el as f64 - 1.0) * 8388608.0).scale(2f64.powi(e - 23)).ok()
}

fn fabs(a: &Ab) -> Ab {
    let F { lo, hi, nan, aff } = *a else { return top_f() };
    if lo > hi {
        return *a;
    }
    if lo > 0.0 || (lo == 0.0 && !neg0(lo)) {
        return *a;
    }
    if hi < 0.0 || neg0(hi) {
        return F { lo: -hi, hi: -lo, nan, aff: aff.map(|x| x.scale(-1.0)) };
    }
    // straddles zero: |x| lies between x*s and the secant
    F { lo: 0.0, hi: (-lo).max(hi), nan, aff: None }
}

pub fn farith(k: K, t: T, a: &Ab, b: &Ab, same: bool) -> Ab {
    let (F { lo: al, hi: ah, nan: an, aff: aa }, F { lo: bl, hi: bh, nan: bn, aff: ba }) = (*a, *b) else { return top_f() };
    if al > ah || bl > bh {
        return F { lo: INF, hi: -INF, nan: true, aff: None };
    }
    let op = |x: f64, y: f64| if t == T::F32 { op32(k, x, y) } else { op64(k, x, y) };
    let mut nan = an || bn;
    let (mut lo, mut hi);
    match k {
        K::FAdd => {
            if (al == -INF && bh == INF) || (ah == INF && bl == -INF) {
                nan = true;
            }
            lo = op(al, bl);
            hi = op(ah, bh);
            if lo.is_nan() {
                lo = -INF;
            }
            if hi.is_nan() {
                hi = INF;
            }
        }
        _ => {
            let has0 = |l: f64, h: f64| l <= 0.0 && h >= 0.0;
            let hasinf = |l: f64, h: f64| l == -INF || h == INF;
            if k == K::FMul {
                if (has0(al, ah) && hasinf(bl, bh)) || (has0(bl, bh) && hasinf(al, ah)) {
                    nan = true;
                }
            } else {
                if (has0(al, ah) && has0(bl, bh)) || (hasinf(al, ah) && hasinf(bl, bh)) {
                    nan = true;
                }
                // divisor with both signs
                if (bl < 0.0 || neg0(bl)) && (bh > 0.0 || (bh == 0.0 && !neg0(bh))) {
                    return F { lo: -INF, hi: INF, nan, aff: None };
                }
            }
            lo = INF;
            hi = -INF;
            let mut bad = false;
            for x in [al, ah] {
                for y in [bl, bh] {
                    let z = op(x, y);
                    if z.is_nan() {
                        bad = true;
                        continue;
                    }
                    lo = tmin(lo, z);
                    hi = tmax(hi, z);
                }
            }
            if bad {
                lo = -INF;
                hi = INF;
            }
            if same && k == K::FMul && !nan {
                // a square
                if lo < 0.0 || neg0(lo) {
                    lo = 0.0;
                }
            }
        }
    }
    if nan || !lo.is_finite() || !hi.is_finite() {
        return F { lo, hi, nan, aff: None };
    }
    let aff = match (aa, ba) {
        (Some(x), Some(y)) => {
            let z = match k {
                K::FAdd => Some(x.add(&y)),
                K::FMul => Some(x.mul(&y)),
                _ => {
                    let r = y.rad();
                    let c = y.c;
                    if c.abs() > r * (1.0 + 1e-9) {
                        let m = c.abs() - r;
                        let inv = y.lift(1.0 / c, -1.0 / (c * c), 2.0 / (m * m * m));
                        inv.ok().map(|i| x.mul(&i))
                    } else {
                        None
                    }
                }
            };
            z.map(|z| {
                let m = lo.abs().max(hi.abs());
                let e = if t == T::F32 {
                    let exact = match k {
                        K::FAdd => (al > 0.0 && bh < 0.0 && al >= -bl / 2.0 && ah <= -2.0 * bh) || (ah < 0.0 && bl > 0.0 && bl >= -al / 2.0 && bh <= -2.0 * ah) || (al == 0.0 && ah == 0.0) || (bl == 0.0 && bh == 0.0),
                        K::FMul => {
                            let pow2 = |l: f64, h: f64| l == h && (l as f32).to_bits() & 0x7f_ffff == 0 && l != 0.0 && (l as f32).to_bits() & 0x7f80_0000 != 0;
                            (pow2(al, ah) || pow2(bl, bh)) && lo.abs().min(hi.abs()) >= 1.1754944e-38 && (lo > 0.0) == (hi > 0.0)
                        }
                        _ => false,
                    };
                    if exact {
                        0.0
                    } else {
                        halfulp32(m)
                    }
                } else {
                    m * 1.2e-16 + 1e-320
                };
                z.err(e)
            })
        }
        _ => None,
    };
    fin(t, lo, hi, nan, aff)
}

// ---------------------------------------------------------------- branch and bound

#[derive(Debug, Clone)]
pub enum Verdict {
    Proved,
    Cex(Vec<u64>),
    Stuck(BoxV, String),
}

#[derive(Default, Debug)]
pub struct Stats {
    pub boxes: AtomicU64,
    pub nodes: AtomicU64,
    pub depth: AtomicUsize,
}

fn split(t: T, (lo, hi): (u64, u64)) -> Option<[(u64, u64); 2]> {
    if lo == hi {
        return None;
    }
    if t == T::F32 && (f32::from_bits(lo as u32).is_nan() || f32::from_bits(hi as u32).is_nan()) {
        return None;
    }
    // cut at a binade boundary when there is one strictly inside
    let mut mid = lo + (hi - lo) / 2;
    if t == T::F32 && (lo >> 23) != (hi >> 23) {
        let m = mid & !0x7f_ffff;
        if m > lo {
            mid = m - 1;
        } else if (m + 0x80_0000) <= hi {
            mid = m + 0x7f_ffff;
        }
    }
    Some([(lo, mid), (mid + 1, hi)])
}

pub fn initial(d: &Dag, fixed: &[(usize, u64)]) -> Vec<BoxV> {
    let mut v = vec![BoxV { r: vec![], depth: 0 }];
    for (i, (_, t)) in d.vars.iter().enumerate() {
        let parts: Vec<(u64, u64)> = if let Some(f) = fixed.iter().find(|x| x.0 == i) {
            vec![(f.1, f.1)]
        } else {
            match t {
                T::F32 => {
                    let mut p = vec![];
                    for s in [0u64, 0x8000_0000] {
                        p.extend([(s, s), (s + 1, s + 0x7f7f_ffff), (s + 0x7f80_0000, s + 0x7f80_0000), (s + 0x7f80_0001, s + 0x7fff_ffff)]);
                    }
                    p
                }
                T::I(1) => vec![(0, 1)],
                T::I(w) => vec![(0, (1u64 << (w - 1)) - 1), (1u64 << (w - 1), mask(*w as u32))],
                T::F64 => vec![(0, !0)],
            }
        };
        v = v
            .into_iter()
            .flat_map(|b| {
                parts.iter().map(move |p| {
                    let mut c = b.clone();
                    c.r.push(*p);
                    c
                })
            })
            .collect();
    }
    v
}

pub fn prove(ctx: &Ctx, goal: N, start: Vec<BoxV>, deadline: Instant, max_boxes: u64, stats: &Stats, threads: usize) -> Verdict {
    let d = ctx.d;
    // variables the goal depends on
    let mut used = vec![false; d.vars.len()];
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![goal];
    while let Some(x) = st.pop() {
        if seen.insert(x) {
            if d.k(x) == K::Var {
                used[d.n[x as usize].imm as usize] = true;
            }
            st.extend(d.n[x as usize].a.iter().copied());
        }
    }
    let queue: Mutex<Vec<BoxV>> = Mutex::new(start);
    let active = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let result: Mutex<Option<Verdict>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let run = || {
                let mut ev = Eval::new(ctx);
                let mut count = 0u64;
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let b = {
                        let mut q = queue.lock().unwrap();
                        let b = q.pop();
                        if b.is_some() {
                            active.fetch_add(1, SeqCst);
                        }
                        b
                    };
                    let Some(b) = b else {
                        if active.load(SeqCst) == 0 {
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_micros(200));
                        continue;
                    };
                    let mut local = vec![b];
                    let mut done = 0;
                    while let Some(b) = local.pop() {
                        if stop.load(SeqCst) {
                            break;
                        }
                        count += 1;
                        done += 1;
                        if count & 0x3ff == 0 {
                            let tot = stats.boxes.fetch_add(0x400, SeqCst);
                            if Instant::now() > deadline || tot > max_boxes {
                                stop.store(true, SeqCst);
                                result.lock().unwrap().get_or_insert(Verdict::Stuck(b.clone(), "resource limit".into()));
                                break;
                            }
                        }
                        let r = ev.run(goal, &b);
                        if r == 0 {
                            continue;
                        }
                        if r == 1 {
                            stop.store(true, SeqCst);
                            let c = b.r.iter().map(|x| x.0).collect();
                            *result.lock().unwrap() = Some(Verdict::Cex(c));
                            break;
                        }
                        // choose a dimension
                        let mut best: Option<(f64, usize)> = None;
                        let inf = ev.influence;
                        let byrange = b.depth % 8 == 7 || inf.iter().all(|x| *x == 0.0);
                        for (i, &(lo, hi)) in b.r.iter().enumerate() {
                            if lo == hi || !used[i] {
                                continue;
                            }
                            if split(d.vars[i].1, (lo, hi)).is_none() {
                                continue;
                            }
                            let dim = ctx.dims[i];
                            let width = (hi - lo) as f64;
                            let wide = d.vars[i].1 == T::F32 && (lo >> 23) != (hi >> 23);
                            let s = if wide && byrange {
                                1e12 + width
                            } else if byrange || dim >= NV {
                                width * 1e-12
                            } else {
                                inf[dim] * if wide { 1000.0 } else { 1.0 } + 1e-15 * width
                            };
                            if best.map_or(true, |x| s > x.0) {
                                best = Some((s, i));
                            }
                        }
                        match best {
                            None => {
                                stop.store(true, SeqCst);
                                *result.lock().unwrap() = Some(Verdict::Stuck(b.clone(), "undecided for single values".into()));
                                break;
                            }
                            Some((_, i)) => {
                                let [x, y] = split(d.vars[i].1, b.r[i]).unwrap();
                                stats.depth.fetch_max(b.depth as usize + 1, SeqCst);
                                let mut p = b.clone();
                                p.depth += 1;
                                let mut q = p.clone();
                                p.r[i] = x;
                                q.r[i] = y;
                                local.push(p);
                                local.push(q);
                            }
                        }
                        if done > 256 && local.len() > 1 {
                            // share the oldest boxes
                            let k = local.len() / 2;
                            let rest: Vec<BoxV> = local.drain(..k).collect();
                            queue.lock().unwrap().extend(rest);
                            done = 0;
                        }
                    }
                    active.fetch_sub(1, SeqCst);
                }
                stats.boxes.fetch_add(count & 0x3ff, SeqCst);
                stats.nodes.fetch_add(ev.nodes, SeqCst);
            };
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).unwrap();
        }
    });
    let r = result.into_inner().unwrap();
    match r {
        Some(v) => v,
        None => Verdict::Proved,
    }
}

// ---------------------------------------------------------------- self test

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

/// concrete reference functions for the self test
fn concrete(name: &str, a: &[u64]) -> Option<u64> {
    let f = |i: usize| f64::from_bits(a[i]);
    let g = |i: usize| f32::from_bits(a[i] as u32);
    Some(match name {
        "any_sign" => 0,
        "ref_sin" => f(0).sin().to_bits(),
        "ref_cos" => f(0).cos().to_bits(),
        "ref_tan" => f(0).tan().to_bits(),
        "ref_atan" => f(0).atan().to_bits(),
        "ref_asin" => f(0).asin().to_bits(),
        "ref_acos" => f(0).acos().to_bits(),
        "ref_exp" => f(0).exp().to_bits(),
        "ref_ln" => f(0).ln().to_bits(),
        "ref_sqrt" => f(0).sqrt().to_bits(),
        "ref_cosh" => f(0).cosh().to_bits(),
        "ref_pow" => f(0).powf(f(1)).to_bits(),
        "ref_atan2" => f(0).atan2(f(1)).to_bits(),
        "math_floor" | "ref_floorf" => g(0).floor().to_bits() as u64,
        "math_ceil" | "ref_ceilf" => g(0).ceil().to_bits() as u64,
        "math_trunc" | "ref_truncf" => g(0).trunc().to_bits() as u64,
        "math_round" | "ref_roundf" => g(0).round().to_bits() as u64,
        "math_fract" if g(0).is_finite() => (g(0) - g(0).trunc()).copysign(g(0)).to_bits() as u64,
        "math_fract" if !g(0).is_nan() => 0f32.copysign(g(0)).to_bits() as u64,
        _ => return None,
    })
}

/// random boxes and random points in them: every concrete value must lie in its enclosure.
/// Returns the number of values compared, or a description of the first escape.
pub fn selftest(ctx: &Ctx, goal: N, start: &[BoxV], seed: &mut u64, boxes: usize, points: usize) -> Result<u64, String> {
    let d = ctx.d;
    let mut ev = Eval::new(ctx);
    let mut n = 0;
    for _ in 0..boxes {
        let s = &start[(rnd(seed) % start.len() as u64) as usize];
        let r: Vec<(u64, u64)> = s
            .r
            .iter()
            .map(|&(lo, hi)| {
                let w = hi - lo;
                let size = (w as f64 * 0.5f64.powi((rnd(seed) % 34) as i32)) as u64;
                let a = lo + if w > size { rnd(seed) % (w - size + 1) } else { 0 };
                (a, (a + size).min(hi))
            })
            .collect();
        let b = BoxV { r: r.clone(), depth: [0, 10][(rnd(seed) % 2) as usize] };
        let verdict = ev.run(goal, &b);
        // the case split leaves the enclosures of one case: evaluate again without it
        ev.cur += 1;
        ev.assume.clear();
        ev.bounds.clear();
        ev.open.clear();
        ev.empty = false;
        ev.b.depth = 0;
        let _ = ev.ev(goal);
        for p in 0..points {
            let env: Vec<u64> = r
                .iter()
                .map(|&(lo, hi)| match (p, rnd(seed) % 4) {
                    (0, _) => lo,
                    (1, _) | (_, 0) => hi,
                    _ => lo + rnd(seed) % (hi - lo + 1),
                })
                .collect();
            let v = d.eval(&[goal], &env, &concrete);
            let at = |x: N| format!("node {} {} in box {:x?} at {:x?}", x, d.show(x, 3), r, env);
            match (verdict, v[goal as usize]) {
                (0, Some(1)) | (1, Some(0)) => return Err(format!("verdict {}: {}", verdict, at(goal))),
                _ => {}
            }
            let eps: Vec<f64> = (0..env.len())
                .map(|i| {
                    if let F { aff: Some(a), .. } | I { aff: Some(a), .. } = var_ab(d.vars[i].1, r[i], ctx.dims[i]) {
                        let x = match d.vars[i].1 {
                            T::F32 => f32::from_bits(env[i] as u32) as f64,
                            _ => env[i] as f64,
                        };
                        let k = ctx.dims[i];
                        if k < NV && a.v[k] != 0.0 {
                            return ((x - a.c) / a.v[k]).clamp(-1.0, 1.0);
                        }
                    }
                    f64::NAN
                })
                .collect();
            for i in 0..=goal as usize {
                if ev.stamp[i] != ev.cur {
                    continue;
                }
                let Some(c) = v[i] else { continue };
                n += 1;
                let val;
                let aff;
                match (&ev.val[i], d.ty(i as N)) {
                    (B(k), _) => {
                        if *k != 2 && *k as u64 != c {
                            return Err(format!("{} is {} not {}", at(i as N), c, k));
                        }
                        continue;
                    }
                    (I { ul, uh, sl, sh, kz, aff: a }, t) => {
                        let w = t.bits();
                        let s = sx(c, w);
                        if c < *ul || c > *uh || s < *sl || s > *sh || c & kz != 0 {
                            return Err(format!("{} is {:#x} not in {:?}", at(i as N), c, ev.val[i]));
                        }
                        val = c as f64;
                        aff = *a;
                    }
                    (F { lo, hi, nan, aff: a }, t) => {
                        val = if t == T::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                        if val.is_nan() {
                            if !nan {
                                return Err(format!("{} is NaN, not in {:?}", at(i as N), ev.val[i]));
                            }
                            continue;
                        }
                        if !(val >= *lo && val <= *hi) || (val == 0.0 && ((*lo == 0.0 && !neg0(*lo) && neg0(val)) || (neg0(*hi) && !neg0(val)))) {
                            return Err(format!("{} is {:e} not in {:?}", at(i as N), val, ev.val[i]));
                        }
                        aff = *a;
                    }
                }
                if let Some(a) = aff {
                    if !val.is_finite() {
                        return Err(format!("{} is {:e} not in {:?}", at(i as N), val, ev.val[i]));
                    }
                    let (mut m, mut e) = (a.c, a.e + 1e-12 * (a.rad() + a.c.abs()));
                    for (k, x) in eps.iter().enumerate() {
                        let k = ctx.dims[k];
                        if k < NV {
                            if x.is_nan() {
                                e += a.v[k].abs();
                            } else {
                                m += a.v[k] * x;
                            }
                        }
                    }
                    if (val - m).abs() > e + 1e-300 {
                        return Err(format!("{} is {:e} not within {:e} of {:e}: {:?}", at(i as N), val, e, m, ev.val[i]));
                    }
                }
            }
        }
    }
    Ok(n)
}
