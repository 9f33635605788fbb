//! Rounding-error analysis: every float value is an exact polynomial of the arguments plus an error
//! bounded by a polynomial with nonnegative coefficients of their magnitudes. An obligation becomes
//! linear arithmetic over monomials, decided by z3 with exact rationals.
//!
//! Model of one operation on finite values whose result cannot overflow (checked for every node):
//! the rounded result differs from the exact one by at most u|v| + eta, u = 2^-24 (2^-53 in f64),
//! eta half the smallest subnormal (0 for sums, which are exact when subnormal).
use crate::dag::*;
use crate::smt;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::time::Instant;

/// (variable, exponent, exponent of its magnitude: 0 or 1); exponents are negative for positive variables only
type Mono = Vec<(u16, i8, i8)>;
type Poly = BTreeMap<Mono, f64>;

/// upper bound of a nonnegative number with few significant bits
fn up(x: f64) -> f64 {
    if x == 0.0 {
        return 0.0;
    }
    if x < 1e-60 {
        return 2f64.powi(-199); // 1.2e-60
    }
    let b = x.to_bits();
    f64::from_bits((b & !0xffff_ffff).wrapping_add(1 << 32))
}

#[derive(Clone, Debug, Default)]
struct V {
    p: Poly,
    q: Poly,
}

/// meaning of a variable beyond the arguments
#[derive(Clone)]
enum Def {
    Node(N, f64),
    Int(usize, u32),
    Abs(Poly),
    Sum(Poly, f64),
}

struct Leaf<'a> {
    d: &'a Dag,
    asg: &'a BTreeMap<N, bool>,
    lo: Vec<f64>,
    hi: Vec<f64>,
    memo: HashMap<N, V>,
    /// polynomials known to be >= 0, or > 0
    facts: Vec<(Poly, bool)>,
    fresh: Vec<u16>,
    file: &'a str,
    nq: usize,
    secs: f64,
    /// the boolean condition to split on
    split: Option<N>,
    litvars: HashMap<usize, u16>,
    divs: HashMap<N, (u16, f64)>,
    zvars: HashMap<N, u16>,
    /// what the variables beyond the arguments stand for, and which facts come from literals
    def: HashMap<u16, Def>,
    assumed: std::collections::HashSet<usize>,
    sums: bool,
    sumvars: HashMap<Vec<(u16, bool)>, u16>,
    cutvars: HashMap<N, u16>,
    /// exact sums of integers
    ints: HashMap<Vec<(Mono, u64)>, u16>,
    /// the value of an arbitrary item, and what depends on it
    items: HashMap<N, u16>,
    peritem: BTreeSet<u16>,
    /// averages over all items
    avgs: HashMap<Mono, u16>,
    counts: BTreeSet<u16>,
    /// the average of the magnitudes, for an average
    avgabs: HashMap<u16, u16>,
    in_fold: bool,
}
type R<T> = Result<T, String>;

fn addc(p: &mut Poly, q: &mut Poly, m: Mono, c: f64, am: Mono) {
    let e = p.entry(m.clone()).or_insert(0.0);
    let s = *e + c;
    // exact error of the sum
    let bb = s - *e;
    let err = (*e - (s - bb)) + (c - bb);
    *e = s;
    if s == 0.0 {
        p.remove(&m);
    }
    if err != 0.0 {
        addq(q, am, err.abs());
    }
}
fn addq(q: &mut Poly, m: Mono, c: f64) {
    if c == 0.0 {
        return;
    }
    let e = q.entry(m).or_insert(0.0);
    *e = if *e == 0.0 { up(c) } else { up(*e + c) };
}

impl<'a> Leaf<'a> {
    fn nonneg(&self, v: u16) -> bool {
        self.lo[v as usize] >= 0.0
    }
    fn norm(&self, m: Mono) -> Mono {
        m.into_iter()
            .map(|(v, mut e, mut a)| {
                if self.nonneg(v) {
                    e += a;
                    a = 0;
                } else {
                    e += a - (a & 1);
                    a &= 1;
                }
                (v, e, a)
            })
            .filter(|x| x.1 != 0 || x.2 != 0)
            .collect()
    }
    fn absm(&self, m: &Mono) -> Mono {
        m.iter()
            .map(|&(v, e, a)| {
                let t = e + a;
                if self.nonneg(v) || t & 1 == 0 {
                    (v, t, 0)
                } else {
                    (v, t - 1, 1)
                }
            })
            .filter(|x| x.1 != 0 || x.2 != 0)
            .collect()
    }
    fn mulm(&self, a: &Mono, b: &Mono) -> Mono {
        let mut m: BTreeMap<u16, (i8, i8)> = BTreeMap::new();
        for &(v, e, x) in a.iter().chain(b) {
            let z = m.entry(v).or_insert((0, 0));
            z.0 += e;
            z.1 += x;
        }
        self.norm(m.into_iter().map(|(v, (e, a))| (v, e, a)).collect())
    }
    fn definite(&self, m: &Mono) -> bool {
        m.iter().all(|&(v, e, _)| self.nonneg(v) || e & 1 == 0)
    }
    /// bounds of a definite monomial
    fn mrange(&self, m: &Mono) -> (f64, f64) {
        let (mut l, mut h) = (1.0f64, 1.0f64);
        for &(v, e, a) in m {
            let (lo, hi) = (self.lo[v as usize], self.hi[v as usize]);
            let (x, y) = if lo >= 0.0 { (lo, hi) } else if hi <= 0.0 { (-hi, -lo) } else { (0.0, hi.max(-lo)) };
            let t = (e + a) as i32;
            if t >= 0 {
                l *= x.powi(t);
                h *= y.powi(t);
            } else {
                l *= y.powi(t);
                h *= if x > 0.0 { x.powi(t) } else { f64::INFINITY };
            }
        }
        (l * (1.0 - 1e-13), h * (1.0 + 1e-13))
    }
    fn absp(&self, p: &Poly) -> Poly {
        let mut r = Poly::new();
        for (m, c) in p {
            addq(&mut r, self.absm(m), c.abs());
        }
        r
    }
    /// the same, with exact coefficients where they do not collide
    fn mag(&self, v: &V) -> f64 {
        let mut s = 0.0;
        for (m, c) in self.absp(&v.p).iter().chain(&v.q) {
            s += c * self.mrange(m).1;
        }
        s * (1.0 + 1e-12)
    }
    /// bound of the magnitude of an exact polynomial
    fn imag(&self, v: &V) -> f64 {
        let (mut l, mut h) = (0.0, 0.0);
        for (m, c) in &v.p {
            let (a, b) = self.mrange(&self.absm(m));
            let (a, b) = if self.definite(m) { (a * c, b * c) } else { (-b * c, b * c) };
            l += a.min(b);
            h += a.max(b);
        }
        f64::max(-l, h) * (1.0 + 1e-12)
    }
    fn addv(&self, a: &V, b: &V, sb: f64) -> V {
        let mut r = a.clone();
        for (m, c) in &b.p {
            let am = self.absm(m);
            addc(&mut r.p, &mut r.q, m.clone(), sb * c, am);
        }
        for (m, c) in &b.q {
            addq(&mut r.q, m.clone(), *c);
        }
        r
    }
    fn mulq(&self, a: &Poly, b: &Poly, out: &mut Poly) {
        for (m, c) in a {
            for (n, e) in b {
                addq(out, self.mulm(m, n), up(c.abs() * e.abs()));
            }
        }
    }
    fn mulv(&self, a: &V, b: &V) -> V {
        let mut r = V::default();
        for (m, c) in &a.p {
            for (n, e) in &b.p {
                let x = c * e;
                let err = c.mul_add(*e, -x);
                let mm = self.mulm(m, n);
                let am = self.absm(&mm);
                if err != 0.0 {
                    addq(&mut r.q, am.clone(), err.abs());
                }
                addc(&mut r.p, &mut r.q, mm, x, am);
            }
        }
        let (pa, pb) = (self.absp(&a.p), self.absp(&b.p));
        self.mulq(&pa, &b.q, &mut r.q);
        self.mulq(&a.q, &pb, &mut r.q);
        self.mulq(&a.q, &b.q, &mut r.q);
        // magnitudes in q are definite but products of them are normalised again
        r
    }
    fn cv(&self, c: f64) -> V {
        let mut v = V::default();
        if c != 0.0 {
            v.p.insert(vec![], c);
        }
        v
    }
    fn varv(&self, v: u16, e: i8) -> V {
        let mut r = V::default();
        r.p.insert(vec![(v, e, 0)], 1.0);
        r
    }
    fn scalep(&self, p: &Poly, c: f64, q: &mut Poly) -> Poly {
        let mut r = Poly::new();
        for (m, x) in p {
            let y = x * c;
            let err = x.mul_add(c, -y);
            if err != 0.0 {
                addq(q, self.absm(m), err.abs());
            }
            r.insert(m.clone(), y);
        }
        r
    }
    fn round(&self, mut v: V, t: T, eta: bool, u: bool) -> R<V> {
        let (uu, max, et) = if t == T::F32 { (2f64.powi(-24), 3.4e38, 2f64.powi(-150)) } else { (2f64.powi(-53), 1e300, 2f64.powi(-199)) };
        if u {
            let a = self.absp(&v.p);
            let mut e = Poly::new();
            for (m, c) in a.iter().chain(&v.q) {
                addq(&mut e, m.clone(), c * uu);
            }
            for (m, c) in e {
                addq(&mut v.q, m, c);
            }
        }
        if eta {
            addq(&mut v.q, vec![], et);
        }
        if !(self.mag(&v) < max) {
            return Err("a value may overflow".into());
        }
        Ok(v)
    }
    fn newvar(&mut self, lo: f64, hi: f64) -> u16 {
        self.lo.push(lo);
        self.hi.push(hi);
        let v = (self.lo.len() - 1) as u16;
        self.fresh.push(v);
        v
    }
    /// adds p >= 0 where p = v.p + v.q
    fn fact(&mut self, v: &V) {
        self.fact2(v, false)
    }
    fn fact2(&mut self, v: &V, strict: bool) {
        let mut p = v.p.clone();
        for (m, c) in &v.q {
            let x = p.entry(m.clone()).or_insert(0.0);
            *x = (*x + c).next_up();
        }
        self.facts.push((p, strict));
    }
    fn bool_of(&mut self, c: N) -> R<bool> {
        let nd = &self.d.n[c as usize];
        let any = |n: N| self.d.n[n as usize].k == K::Call && self.d.calls[self.d.n[n as usize].imm as usize] == "any_sign";
        if nd.k == K::And && (any(nd.a[0]) || any(nd.a[1])) {
            // a choice between zeros: the same number
            return Ok(false);
        }
        match value(self.d, self.asg, c) {
            Some(b) => Ok(b),
            None => {
                self.split = Some(c);
                Err("split".into())
            }
        }
    }
    /// bounds of the value of v, by queries
    fn range(&mut self, v: &V) -> (f64, f64) {
        let m = self.mag(v);
        let q = V { p: Poly::new(), q: v.q.clone() };
        let _ = q;
        let mut h = m;
        // constants of the facts, times powers: the bound is one of a few candidates
        let mut best = f64::NEG_INFINITY;
        let ok = |s: &mut Self, c: f64| -> bool {
            // v < c contradictory?
            let neg = s.addv(&s.cv(c), v, -1.0); // c - v > 0
            s.refute(&neg)
        };
        if ok(self, -m * 1.1) {
            // largest k with v >= 2^k
            let (mut a, mut b) = (-200i32, 127i32);
            if ok(self, 2f64.powi(a)) {
                while b - a > 1 {
                    let k = (a + b).div_euclid(2);
                    if ok(self, 2f64.powi(k)) {
                        a = k;
                    } else {
                        b = k;
                    }
                }
                best = 2f64.powi(a);
                for f in [1.9, 1.8, 1.7, 1.6, 1.5, 1.4, 1.3, 1.2, 1.1] {
                    if ok(self, best * f) {
                        best *= f;
                        break;
                    }
                }
            } else if ok(self, 0.0) {
                best = 0.0;
            }
        }
        let okh = |s: &mut Self, c: f64| -> bool {
            let neg = s.addv(v, &s.cv(c), -1.0);
            s.refute(&neg)
        };
        if m.is_finite() {
            let top = m.log2().ceil() as i32;
            let (mut a, mut b) = (top - 60, top);
            while b - a > 1 {
                let k = (a + b).div_euclid(2);
                if okh(self, 2f64.powi(k)) {
                    b = k;
                } else {
                    a = k;
                }
            }
            h = h.min(2f64.powi(b));
            for f in [0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95] {
                if okh(self, h * f) {
                    h *= f;
                    break;
                }
            }
        }
        (best, h)
    }
    fn val(&mut self, n: N) -> R<V> {
        if let Some(v) = self.memo.get(&n) {
            return Ok(v.clone());
        }
        let v = self.val0(n)?;
        self.memo.insert(n, v.clone());
        Ok(v)
    }
    fn val0(&mut self, n: N) -> R<V> {
        let nd = self.d.n[n as usize].clone();
        match nd.k {
            K::Const => {
                let x = match nd.t {
                    T::F32 => f32::from_bits(nd.imm as u32) as f64,
                    T::F64 => f64::from_bits(nd.imm),
                    _ => return Err("integer".into()),
                };
                if !x.is_finite() {
                    return Err("infinite constant".into());
                }
                Ok(self.cv(x))
            }
            K::Var if nd.t.is_f() => {
                let i = nd.imm as usize;
                if !(self.lo[i].is_finite() && self.hi[i].is_finite()) {
                    return Err(format!("argument {} is not bounded", i));
                }
                Ok(self.varv(i as u16, 1))
            }
            K::SiToFp | K::UiToFp => {
                // integer arguments of at most 16 bits convert exactly
                let x = nd.a[0];
                let xn = &self.d.n[x as usize];
                let w = xn.t.bits();
                if xn.k != K::Var || w > 16 {
                    let v = self.int_of(x)?;
                    let (m, top) = (self.imag(&v), if nd.t == T::F32 { 16777216.5 } else { 9007199254740992.5 });
                    if !v.q.is_empty() || nd.k == K::SiToFp && m >= 2f64.powi(w as i32 - 1) {
                        return Err("conversion of an integer".into());
                    }
                    return self.round(v, nd.t, false, m > top);
                }
                let i = xn.imm as usize;
                let s = nd.k == K::SiToFp;
                let key = i * 2 + s as usize;
                let v = match self.litvars.get(&key) {
                    Some(v) => *v,
                    None => {
                        let m = 2f64.powi(w as i32);
                        let v = if s { self.newvar(-m / 2.0, m / 2.0 - 1.0) } else { self.newvar(0.0, m - 1.0) };
                        self.fresh.pop();
                        self.def.insert(v, Def::Int(i, if s { w } else { 0 }));
                        self.litvars.insert(key, v);
                        v
                    }
                };
                Ok(self.varv(v, 1))
            }
            K::FNeg => {
                let a = self.val(nd.a[0])?;
                Ok(self.addv(&V::default(), &V { p: a.p, q: a.q }, -1.0))
            }
            K::FpExt => self.val(nd.a[0]),
            K::FpTrunc => {
                let a = self.val(nd.a[0])?;
                self.round(a, T::F32, true, true)
            }
            K::FAdd => {
                let (x, y) = (nd.a[0], nd.a[1]);
                let a = self.val(x)?;
                if x == y {
                    let s = self.addv(&a, &a, 1.0);
                    return self.round(s, nd.t, false, false);
                }
                let b = self.val(y)?;
                let mut s = self.addv(&a, &b, 1.0);
                if self.d.items.is_some() && self.integral(x) && self.integral(y) {
                    let top = if nd.t == T::F32 { 16777216.5 } else { 9007199254740992.5 };
                    if self.imag(&s) <= top && s.q.is_empty() {
                        let v = self.int_sum(s)?;
                        return Ok(v);
                    }
                }
                if self.sums {
                    // the exact sum of two arguments is a variable of its own
                    let unit = |v: &V| v.q.is_empty() && v.p.len() == 1 && v.p.iter().all(|(m, c)| c.abs() == 1.0 && m.len() == 1 && m[0].1 == 1 && m[0].2 == 0);
                    let (mut a, mut b) = (a.clone(), b.clone());
                    if unit(&a) != unit(&b) && (self.d.k(x) == K::FNeg) != (self.d.k(y) == K::FNeg) {
                        // a computed value subtracted from an argument (or the reverse): its value is a variable
                        let (o, v) = if unit(&a) { (y, &mut b) } else { (x, &mut a) };
                        let neg = self.d.k(o) == K::FNeg;
                        let mut o = if neg { self.d.arg(o, 0) } else { o };
                        while self.d.k(o) == K::FpExt {
                            o = self.d.arg(o, 0);
                        }
                        if !(v.p.is_empty() && v.q.is_empty()) && self.d.cst(o).is_none() {
                            let t = match self.cutvars.get(&o) {
                                Some(t) => *t,
                                None => {
                                    let m = self.mag(v);
                                    let t = self.newvar(-m, m);
                                    self.fresh.pop();
                                    self.def.insert(t, Def::Node(o, 1.0));
                                    if self.d.items.is_some() && self.varies(o) {
                                        self.peritem.insert(t);
                                    }
                                    self.cutvars.insert(o, t);
                                    t
                                }
                            };
                            *v = V::default();
                            v.p.insert(vec![(t, 1, 0)], if neg { -1.0 } else { 1.0 });
                            s = self.addv(&a, &b, 1.0);
                        }
                    }
                    if unit(&a) && unit(&b) {
                        let key: Vec<(u16, bool)> = {
                            let mut k: Vec<(u16, bool)> = s.p.iter().map(|(m, c)| (m[0].0, *c < 0.0)).collect();
                            k.sort();
                            k
                        };
                        if key.len() == 2 {
                            let neg = key[0].1;
                            let key: Vec<(u16, bool)> = key.into_iter().map(|(v, b)| (v, b ^ neg)).collect();
                            let t = match self.sumvars.get(&key) {
                                Some(t) => *t,
                                None => {
                                    let m = self.mag(&s).min(self.sumbound(&key));
                                    let t = self.newvar(-m, m);
                                    self.fresh.pop();
                                    if s.p.keys().any(|m| self.of_item(m)) {
                                        self.peritem.insert(t);
                                    }
                                    self.def.insert(t, Def::Sum(s.p.clone(), if neg { -1.0 } else { 1.0 }));
                                    self.sumvars.insert(key, t);
                                    let x = self.addv(&s, &self.varv(t, 1), if neg { 1.0 } else { -1.0 });
                                    let y = self.addv(&V::default(), &x, -1.0);
                                    self.fact(&x);
                                    self.fact(&y);
                                    t
                                }
                            };
                            let mut r = V::default();
                            r.p.insert(vec![(t, 1, 0)], if neg { -1.0 } else { 1.0 });
                            return self.round(r, nd.t, false, true);
                        }
                    }
                }
                let exact = a.p.is_empty() && a.q.is_empty() || b.p.is_empty() && b.q.is_empty();
                self.round(s, nd.t, false, !exact)
            }
            K::FMul => {
                let (x, y) = (nd.a[0], nd.a[1]);
                let a = self.val(x)?;
                let b = self.val(y)?;
                let p2 = |n: N| {
                    self.d.cst(n).map(|c| if nd.t == T::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) }).filter(|c| c.to_bits() << 12 == 0 && c.abs() < 1e60 && c.abs() > 1e-60)
                };
                let two = p2(x).or(p2(y));
                // products of two f32 are exact in f64
                let ext = nd.t == T::F64 && self.d.k(x) == K::FpExt && self.d.k(y) == K::FpExt;
                let s = self.mulv(&a, &b);
                if s.p.is_empty() && s.q.is_empty() {
                    return Ok(s);
                }
                match two {
                    Some(c) => self.round(s, nd.t, c.abs() < 1.0, false),
                    None => self.round(s, nd.t, !ext, !ext),
                }
            }
            K::FDiv => {
                let a = self.val(nd.a[0])?;
                let s = match self.d.cst(nd.a[1]) {
                    Some(c) => {
                        let c = if nd.t == T::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                        if !(c.is_finite() && c != 0.0) {
                            return Err("division by a constant".into());
                        }
                        let mut q = Poly::new();
                        let inv = 1.0 / c;
                        let p = self.scalep(&a.p, inv, &mut q);
                        let exact = inv * c == 1.0 && c.to_bits() << 12 == 0;
                        if !exact {
                            for (m, x) in &p {
                                addq(&mut q, self.absm(m), x.abs() * 2.5e-16);
                            }
                        }
                        for (m, x) in &a.q {
                            addq(&mut q, m.clone(), x * inv.abs() * (1.0 + 1e-15));
                        }
                        if a.p.len() == 1 && self.d.cst(nd.a[0]).is_some() {
                            return Err("constant quotient".into());
                        }
                        V { p, q }
                    }
                    None => {
                        let (s, sg) = self.divisor(nd.a[1])?;
                        let i = self.varv(s, -1);
                        let mut r = self.mulv(&a, &i);
                        if sg < 0.0 {
                            r = self.addv(&V::default(), &r, -1.0);
                        }
                        r
                    }
                };
                self.round(s, nd.t, true, true)
            }
            K::FAbs => {
                let a = self.val(nd.a[0])?;
                if a.p.len() <= 1 {
                    let mut r = V { p: Poly::new(), q: a.q.clone() };
                    for (m, c) in &a.p {
                        r.p.insert(self.absm(m), c.abs());
                    }
                    return Ok(r);
                }
                if a.p.keys().all(|m| self.definite(m)) {
                    if a.p.values().all(|c| *c > 0.0) {
                        return Ok(a);
                    }
                    if a.p.values().all(|c| *c < 0.0) {
                        return Ok(self.addv(&V::default(), &a, -1.0));
                    }
                }
                let t = self.newvar(0.0, self.mag(&a));
                self.def.insert(t, Def::Abs(a.p.clone()));
                self.fresh.pop();
                if a.p.keys().any(|m| self.of_item(m)) {
                    self.peritem.insert(t);
                }
                let tv = self.varv(t, 1);
                let (pe, ab) = (V { p: a.p.clone(), q: Poly::new() }, V { p: self.absp(&a.p), q: Poly::new() });
                for f in [self.addv(&tv, &pe, -1.0), self.addv(&tv, &pe, 1.0), self.addv(&ab, &tv, -1.0)] {
                    self.fact(&f);
                }
                Ok(V { p: tv.p, q: a.q })
            }
            K::Ite => {
                if self.d.items.is_some() && self.varies(nd.a[0]) {
                    return Err("a condition on an item".into());
                }
                let c = self.bool_of(nd.a[0])?;
                self.val(if c { nd.a[1] } else { nd.a[2] })
            }
            K::Call => {
                let name = self.d.calls[nd.imm as usize].clone();
                let one = self.cv(1.0);
                if self.in_fold && name != "item" {
                    if self.varies(n) {
                        return Err(format!("call of {} for every item", name));
                    }
                    self.in_fold = false;
                    let r = self.val(n);
                    self.in_fold = true;
                    return r;
                }
                if let Some(k) = name.strip_prefix("fold_") {
                    return self.fold(k.parse().unwrap(), nd.a[0], nd.a[1], nd.t);
                }
                match name.as_str() {
                    "item" => {
                        let (_, b) = self.d.items.ok_or("items")?;
                        if !b.is_finite() {
                            return Err("items without a bound".into());
                        }
                        let v = match self.items.get(&n) {
                            Some(v) => *v,
                            None => {
                                let v = self.newvar(-b, b);
                                self.fresh.pop();
                                self.items.insert(n, v);
                                self.peritem.insert(v);
                                v
                            }
                        };
                        Ok(self.varv(v, 1))
                    }
                    "sum_sqrt" | "ref_sqrt" => {
                        let a = self.val(nd.a[0])?;
                        let (l, h) = self.range(&a);
                        let f = name == "sum_sqrt";
                        if !(l >= 1.1754943508222875e-38 && h <= 3.4028234663852886e38) && (f || l < 0.0) {
                            return Err(format!("the precondition of {} is not shown", name));
                        }
                        let (cl, ch) = if f { (0.999999, 1.0608) } else { (1.0 - 1e-15, 1.0 + 1e-15) };
                        let s = self.newvar(l.sqrt() * cl * (1.0 - 1e-12), h.sqrt() * ch * (1.0 + 1e-12));
                        self.def.insert(s, Def::Node(n, 1.0));
                        let s2 = self.varv(s, 2);
                        self.between(&s2, &a, cl * cl * (1.0 - 1e-14), ch * ch * (1.0 + 1e-14));
                        Ok(self.varv(s, 1))
                    }
                    "sum_invsqrt" => {
                        let a = self.val(nd.a[0])?;
                        let (l, h) = self.range(&a);
                        if !(l >= 1.1754943508222875e-38 && h <= 3.4028234663852886e38) {
                            return Err("the precondition of invsqrt is not shown".into());
                        }
                        let s = self.newvar(0.965 / h.sqrt() * (1.0 - 1e-12), 1.035 / l.sqrt() * (1.0 + 1e-12));
                        self.def.insert(s, Def::Node(n, 1.0));
                        let s2 = self.varv(s, 2);
                        let prod = self.mulv(&s2, &a);
                        self.between(&prod, &one, 0.965 * 0.965 * (1.0 - 1e-14), 1.035 * 1.035 * (1.0 + 1e-14));
                        Ok(self.varv(s, 1))
                    }
                    "sum_inv" => {
                        let a = self.val(nd.a[0])?;
                        let (l, h) = self.range(&a);
                        if !(l >= 1.2000001e-38 && h <= 8.499999e37) {
                            return Err("the precondition of inv is not shown".into());
                        }
                        let s = self.newvar(1.0 / h * (1.0 - 1e-12), 1.1251 / l * (1.0 + 1e-12));
                        self.def.insert(s, Def::Node(n, 1.0));
                        let sv = self.varv(s, 1);
                        let prod = self.mulv(&sv, &a);
                        self.between(&prod, &one, 1.0 - 1e-14, 1.1251 * (1.0 + 1e-14));
                        Ok(sv)
                    }
                    _ => Err(format!("call of {}", name)),
                }
            }
            k => Err(format!("operation {:?}", k)),
        }
    }
    fn of_item(&self, m: &Mono) -> bool {
        m.iter().any(|x| self.peritem.contains(&x.0))
    }
    /// depends on the round of a loop
    fn varies(&self, n: N) -> bool {
        let p = |n: N| {
            let nd = &self.d.n[n as usize];
            nd.k == K::Call && matches!(self.d.calls[nd.imm as usize].as_str(), "loop_index" | "accumulator") || nd.k == K::Call && self.d.calls[nd.imm as usize].starts_with("item")
        };
        self.d.any(n, &p, &mut Default::default())
    }
    /// bounds of an integer argument from the literals of the cube
    fn int_range(&self, i: usize) -> Option<(u64, u64)> {
        let (mut lo, mut hi) = (0u64, mask(self.d.vars[i].1.bits()));
        let arg = |mut n: N| {
            while self.d.k(n) == K::Zext {
                n = self.d.arg(n, 0);
            }
            self.d.k(n) == K::Var && self.d.n[n as usize].imm as usize == i
        };
        for (&n, &b) in self.asg {
            let nd = &self.d.n[n as usize];
            let (a, c) = match nd.k {
                K::Eq | K::Ult | K::Ule => (nd.a[0], nd.a[1]),
                _ => continue,
            };
            match (arg(a), self.d.cst(c), self.d.cst(a), arg(c)) {
                (true, Some(c), _, _) => match (nd.k, b) {
                    (K::Eq, true) => (lo, hi) = (lo.max(c), hi.min(c)),
                    (K::Eq, false) if c == lo => lo += 1,
                    (K::Eq, false) => {}
                    (K::Ult, true) => hi = hi.min(c.checked_sub(1)?),
                    (K::Ult, false) => lo = lo.max(c),
                    (_, true) => hi = hi.min(c),
                    (_, false) => lo = lo.max(c.checked_add(1)?),
                },
                (_, _, Some(c), true) => match (nd.k, b) {
                    (K::Ult, true) => lo = lo.max(c.checked_add(1)?),
                    (K::Ult, false) => hi = hi.min(c),
                    (K::Ule, true) => lo = lo.max(c),
                    (K::Ule, false) => hi = hi.min(c.checked_sub(1)?),
                    _ => {}
                },
                _ => {}
            }
        }
        Some((lo, hi))
    }
    /// the mathematical value of an integer that does not wrap around
    fn int_of(&mut self, n: N) -> R<V> {
        let nd = self.d.n[n as usize].clone();
        let w = nd.t.bits();
        match nd.k {
            K::Zext => self.int_of(nd.a[0]),
            K::Const if w <= 32 || nd.imm < 1 << 53 => Ok(self.cv(nd.imm as f64)),
            K::Var if w <= 32 => {
                let i = nd.imm as usize;
                let (l, h) = self.int_range(i).ok_or("no value")?;
                let v = match self.litvars.get(&(i * 2)) {
                    Some(v) => *v,
                    None => {
                        let v = self.newvar(l as f64, h as f64);
                        self.fresh.pop();
                        self.def.insert(v, Def::Int(i, 0));
                        self.litvars.insert(i * 2, v);
                        self.counts.insert(v);
                        v
                    }
                };
                Ok(self.varv(v, 1))
            }
            K::Add => {
                let a = self.int_of(nd.a[0])?;
                let Some(c) = self.d.cst(nd.a[1]) else { return Err("sum of integers".into()) };
                let c = sx(c, w) as f64;
                let s = self.addv(&a, &self.cv(c), 1.0);
                // within the range without the constant it has range a
                if !(a.q.is_empty() && a.p.len() == 1) {
                    return Err("sum of integers".into());
                }
                let (m, k) = a.p.iter().next().unwrap();
                if *k != 1.0 || m.len() != 1 || m[0].1 != 1 || m[0].2 != 0 {
                    return Err("sum of integers".into());
                }
                let (l, h) = (self.lo[m[0].0 as usize] + c, self.hi[m[0].0 as usize] + c);
                if l < 0.0 || h >= 2f64.powi(w as i32) || h >= 9007199254740992.0 {
                    return Err("an integer may wrap around".into());
                }
                self.int_sum(s)
            }
            _ => Err("integer operation".into()),
        }
    }
    /// an exact sum of integers: a variable of its own
    fn int_sum(&mut self, s: V) -> R<V> {
        if s.p.len() != 2 || !s.q.is_empty() {
            return Ok(s);
        }
        let key: Vec<(Mono, u64)> = s.p.iter().map(|(m, c)| (m.clone(), c.to_bits())).collect();
        if let Some(&v) = self.ints.get(&key) {
            return Ok(self.varv(v, 1));
        }
        // a variable plus a constant
        let c = *s.p.get(&vec![]).unwrap_or(&0.0);
        let Some((m, k)) = s.p.iter().find(|x| !x.0.is_empty()) else { return Ok(s) };
        if c >= 0.0 || *k != 1.0 || m.len() != 1 || m[0].1 != 1 || m[0].2 != 0 {
            return Ok(s);
        }
        let (l, h) = (self.lo[m[0].0 as usize] + c, self.hi[m[0].0 as usize] + c);
        let count = self.counts.contains(&m[0].0);
        let t = self.newvar(l, h);
        self.fresh.pop();
        if count && l > 0.0 {
            self.counts.insert(t);
        }
        self.def.insert(t, Def::Sum(s.p.clone(), 1.0));
        self.ints.insert(key, t);
        let x = self.addv(&s, &self.varv(t, 1), -1.0);
        let y = self.addv(&V::default(), &x, -1.0);
        self.fact(&x);
        self.fact(&y);
        Ok(self.varv(t, 1))
    }
    fn integral(&self, n: N) -> bool {
        let nd = &self.d.n[n as usize];
        match nd.k {
            K::UiToFp | K::SiToFp => true,
            K::FNeg | K::FAbs | K::FpExt => self.integral(nd.a[0]),
            K::FAdd => self.integral(nd.a[0]) && self.integral(nd.a[1]),
            K::Const => {
                let x = if nd.t == T::F32 { f32::from_bits(nd.imm as u32) as f64 } else { f64::from_bits(nd.imm) };
                x.fract() == 0.0 && x.abs() < 1e6
            }
            _ => false,
        }
    }
    /// the average over all items of a product of values of one item
    fn avg(&mut self, m: &Mono) -> R<u16> {
        if let Some(&v) = self.avgs.get(m) {
            return Ok(v);
        }
        if m.iter().any(|x| x.1 < 0) {
            return Err("a quotient by an item".into());
        }
        let v = if self.definite(m) {
            let (l, h) = self.mrange(m);
            self.newvar(l.max(0.0), h)
        } else {
            let am = self.absm(m);
            let a = self.avg(&am)?;
            let h = self.hi[a as usize];
            let v = self.newvar(-h, h);
            self.avgabs.insert(v, a);
            let (x, y) = (self.varv(a, 1), self.varv(v, 1));
            for s in [1.0, -1.0] {
                let f = self.addv(&x, &y, s);
                self.fact(&f);
            }
            v
        };
        self.fresh.retain(|&x| x != v);
        self.avgs.insert(m.clone(), v);
        Ok(v)
    }
    fn average(&mut self, p: &Poly, q: bool) -> R<Poly> {
        let mut r = Poly::new();
        let mut lost = Poly::new();
        for (m, c) in p {
            let (i, o): (Mono, Mono) = m.iter().partition(|x| self.peritem.contains(&x.0));
            let mm = if i.is_empty() { o } else { let v = self.avg(&i)?; self.mulm(&o, &vec![(v, 1, 0)]) };
            if q {
                addq(&mut r, mm, *c);
            } else {
                let am = self.absm(&mm);
                addc(&mut r, &mut lost, mm, *c, am);
            }
        }
        if !lost.is_empty() {
            return Err("coefficients".into());
        }
        Ok(r)
    }
    /// init + sum of the terms of all items, added from the first to the last: each of the at most
    /// n additions errs by u of the sum of magnitudes (Jeannerod and Rump), the terms by their own errors
    fn fold(&mut self, k: usize, init: N, count: N, t: T) -> R<V> {
        let f = self.d.folds[k];
        if self.in_fold || self.d.items.map(|x| x.0) != Some(count) {
            return Err("a loop over some of the items".into());
        }
        let nd = self.d.n[f.template as usize].clone();
        let n = self.int_of(count)?;
        let nv = match n.p.iter().next() {
            Some((m, c)) if n.p.len() == 1 && *c == 1.0 && m.len() == 1 => m[0].0,
            _ => return Err("number of items".into()),
        };
        if self.lo[nv as usize] < 1.0 {
            return Err("there may be no items".into());
        }
        if nd.k != K::FAdd || !t.is_f() {
            return Err("a loop that does not add".into());
        }
        let term = if nd.a[0] == f.acc { nd.a[1] } else if nd.a[1] == f.acc { nd.a[0] } else { return Err("a loop that does not add".into()) };
        // every value of the round is read at its own index
        let bad = |n: N| {
            let nd = &self.d.n[n as usize];
            n == f.acc || nd.k == K::Call && self.d.calls[nd.imm as usize].starts_with("item") && nd.a[0] != f.index
        };
        if self.d.any(term, &bad, &mut Default::default()) {
            return Err("another item".into());
        }
        let start = self.val(init)?;
        if self.d.cst(term).is_some() && self.integral(term) && self.integral(init) {
            // a counter
            let c = self.val(term)?;
            let p = self.mulv(&n, &c);
            let s = self.addv(&start, &p, 1.0);
            let top = if t == T::F32 { 16777216.5 } else { 9007199254740992.5 };
            if self.imag(&s) <= top && s.q.is_empty() {
                return Ok(s);
            }
        }
        self.in_fold = true;
        let v = self.val(term);
        self.in_fold = false;
        let v = v?;
        let a = V { p: self.average(&v.p, false)?, q: self.average(&v.q, true)? };
        let s = self.mulv(&n, &a);
        let mut r = self.addv(&start, &s, 1.0);
        // magnitudes of the terms
        let b = V { p: Poly::new(), q: self.average(&self.absp(&v.p), true)? };
        let mut e = Poly::new();
        let b = self.mulv(&n, &b);
        for (m, c) in self.absp(&start.p).iter().chain(&start.q).chain(&b.q).chain(&s.q) {
            addq(&mut e, m.clone(), *c);
        }
        let u = if t == T::F32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
        let e = self.mulv(&n, &V { p: Poly::new(), q: e });
        for (m, c) in &e.q {
            addq(&mut r.q, m.clone(), up(c * u));
        }
        // a bound of every partial sum
        let mut all = V { p: Poly::new(), q: b.q.clone() };
        for (m, c) in self.absp(&start.p).iter().chain(&start.q).chain(&s.q).chain(&r.q) {
            addq(&mut all.q, m.clone(), *c);
        }
        if !(self.mag(&all) < if t == T::F32 { 3.4e38 } else { 1e300 }) {
            return Err("a sum may overflow".into());
        }
        Ok(r)
    }
    /// x in [l, h] * a, for a >= 0
    fn between(&mut self, x: &V, a: &V, l: f64, h: f64) {
        let lv = self.mulv(a, &self.cv(l));
        let hv = self.mulv(a, &self.cv(h));
        let f = self.addv(x, &lv, -1.0);
        self.fact(&f);
        let f = self.addv(&hv, x, -1.0);
        self.fact(&f);
    }
    /// a positive variable equal to the value of node n or its negation
    fn divisor(&mut self, n: N) -> R<(u16, f64)> {
        if let Some(x) = self.divs.get(&n) {
            return Ok(*x);
        }
        if self.d.items.is_some() && self.varies(n) {
            return Err("a division by an item".into());
        }
        let b = self.val(n)?;
        if b.q.is_empty() && b.p.len() == 1 {
            let (m, c) = b.p.iter().next().unwrap();
            if *c == 1.0 && m.len() == 1 && m[0].1 == 1 && m[0].2 == 0 && self.lo[m[0].0 as usize] > 0.0 {
                return Ok((m[0].0, 1.0));
            }
        }
        let mut sg = 1.0;
        let (mut l, mut h) = self.range(&b);
        let mut e = b.clone();
        if !(l > 0.0) {
            e = self.addv(&V::default(), &b, -1.0);
            sg = -1.0;
            (l, h) = self.range(&e);
            if !(l > 0.0) {
                return Err("a divisor may be zero".into());
            }
        }
        let s = self.newvar(l * (1.0 - 1e-12), h * (1.0 + 1e-12));
        self.def.insert(s, Def::Node(n, sg));
        let sv = self.varv(s, 1);
        let f = self.addv(&sv, &e, -1.0);
        self.fact(&f);
        let f = self.addv(&e, &sv, -1.0);
        self.fact(&f);
        // its exact value from now on
        self.memo.insert(n, if sg > 0.0 { sv.clone() } else { self.addv(&V::default(), &sv, -1.0) });
        self.divs.insert(n, (s, sg));
        Ok((s, sg))
    }
    /// bound of a sum of two arguments from literals that bound its rounded value
    fn sumbound(&mut self, key: &[(u16, bool)]) -> f64 {
        let (mut h, mut l) = (f64::INFINITY, f64::INFINITY);
        for (&n, &b) in self.asg.clone().iter() {
            let nd = self.d.n[n as usize].clone();
            if !b || !matches!(nd.k, K::FOle | K::FOlt) {
                continue;
            }
            for (i, j) in [(0, 1), (1, 0)] {
                let (mut x, c) = (nd.a[i], nd.a[j]);
                let Some(cv) = self.d.cst(c) else { continue };
                let c = if self.d.ty(c) == T::F32 { f32::from_bits(cv as u32) as f64 } else { f64::from_bits(cv) };
                // (below c, above c)
                let (mut up, mut abs) = (i == 0, false);
                let mut c = c;
                loop {
                    match self.d.k(x) {
                        K::FpExt => {}
                        K::FNeg => {
                            if !abs {
                                up = !up;
                                c = -c;
                            }
                        }
                        K::FAbs => abs = true,
                        _ => break,
                    }
                    x = self.d.arg(x, 0);
                }
                let leaf = |mut n: N| {
                    while matches!(self.d.k(n), K::FpExt | K::FNeg | K::SiToFp | K::UiToFp) {
                        n = self.d.arg(n, 0);
                    }
                    self.d.k(n) == K::Var
                };
                if self.d.k(x) != K::FAdd || !leaf(self.d.arg(x, 0)) || !leaf(self.d.arg(x, 1)) {
                    continue;
                }
                let (Ok(a), Ok(b)) = (self.val(self.d.arg(x, 0)), self.val(self.d.arg(x, 1))) else { continue };
                let s = self.addv(&a, &b, 1.0);
                if !(a.q.is_empty() && b.q.is_empty() && a.p.len() == 1 && b.p.len() == 1) {
                    continue;
                }
                let mut k: Vec<(u16, bool)> = vec![];
                for (m, c) in &s.p {
                    if c.abs() != 1.0 || m.len() != 1 || m[0].1 != 1 || m[0].2 != 0 {
                        k.clear();
                        break;
                    }
                    k.push((m[0].0, *c < 0.0));
                }
                k.sort();
                if k.len() != 2 {
                    continue;
                }
                let neg = k[0].1;
                let k: Vec<(u16, bool)> = k.into_iter().map(|(v, b)| (v, b ^ neg)).collect();
                if k != key {
                    continue;
                }
                if neg && !abs {
                    up = !up;
                    c = -c;
                }
                let m = c.abs() * (1.0 + 2e-7);
                if abs && up && c >= 0.0 {
                    h = h.min(m);
                    l = l.min(m);
                } else if !abs && up && c >= 0.0 {
                    h = h.min(m);
                } else if !abs && !up && c <= 0.0 {
                    l = l.min(m);
                }
            }
        }
        h.max(l)
    }
    /// the value of an evaluated node as a variable, when it has an error
    fn value_of(&mut self, n: N) -> V {
        let nd = self.d.n[n as usize].clone();
        match nd.k {
            K::FpExt => return self.value_of(nd.a[0]),
            K::FNeg => {
                let v = self.value_of(nd.a[0]);
                return self.addv(&V::default(), &v, -1.0);
            }
            K::Ite => {
                if let Some(b) = value(self.d, self.asg, nd.a[0]) {
                    return self.value_of(nd.a[if b { 1 } else { 2 }]);
                }
            }
            _ => {}
        }
        let v = match self.val(n) {
            Ok(v) => v,
            Err(_) => {
                let z = self.newvar(f64::NEG_INFINITY, f64::INFINITY);
                self.fresh.pop();
                return self.varv(z, 1);
            }
        };
        if v.q.is_empty() {
            return v;
        }
        let z = match self.zvars.get(&n) {
            Some(z) => *z,
            None => {
                let m = self.mag(&v);
                let z = self.newvar(-m, m);
                self.def.insert(z, Def::Node(n, 1.0));
                self.fresh.pop();
                self.zvars.insert(n, z);
                let zv = self.varv(z, 1);
                let f = self.addv(&zv, &v, -1.0);
                self.fact(&f);
                let f = self.addv(&v, &zv, -1.0);
                self.fact(&f);
                z
            }
        };
        self.varv(z, 1)
    }
    /// constraints `p >= 0` (as polynomial facts) of the comparison literals of the cube
    fn literals(&mut self) -> R<()> {
        let mut todo: Vec<(N, bool)> = self.asg.iter().map(|(n, b)| (*n, *b)).filter(|x| matches!(self.d.k(x.0), K::FOle | K::FOlt | K::FOeq)).collect();
        // what a value needs may follow from a literal that comes later
        for _ in 0..3 {
            let mut again = vec![];
            for (n, b) in todo {
                let nd = self.d.n[n as usize].clone();
                let (x, y) = match (self.val(nd.a[0]), self.val(nd.a[1])) {
                    (Ok(x), Ok(y)) => (x, y),
                    _ if self.split.is_some() => return Err("split".into()),
                    _ => {
                        again.push((n, b));
                        continue;
                    }
                };
                let n0 = self.facts.len();
                // the same facts about the values themselves: literals on one value share its error
                let (zx, zy) = (self.value_of(nd.a[0]), self.value_of(nd.a[1]));
                let n0 = n0.max(self.facts.len());
                let (p, q) = (self.addv(&zy, &zx, -1.0), self.addv(&zx, &zy, -1.0));
                match (nd.k, b) {
                    (K::FOle | K::FOlt, true) => self.fact2(&p, nd.k == K::FOlt),
                    (K::FOle | K::FOlt, false) => self.fact2(&q, nd.k == K::FOle),
                    (_, true) => {
                        self.fact(&p);
                        self.fact(&q);
                    }
                    _ => {}
                }
                let (p, q) = (self.addv(&y, &x, -1.0), self.addv(&x, &y, -1.0));
                match (nd.k, b) {
                    (K::FOle | K::FOlt, true) => self.fact2(&p, nd.k == K::FOlt),
                    (K::FOle | K::FOlt, false) => self.fact2(&q, nd.k == K::FOle),
                    (_, true) => {
                        self.fact(&p);
                        self.fact(&q);
                    }
                    _ => {
                        if p.p.is_empty() && p.q.is_empty() {
                            let f = self.cv(-1.0);
                            self.fact(&f);
                        }
                    }
                }
                self.assumed.extend(n0..self.facts.len());
            }
            todo = again;
            if todo.is_empty() {
                break;
            }
        }
        Ok(())
    }
    /// random points: values of the nodes lie in their enclosures, and the facts that are not
    /// assumptions hold; returns (values checked, escapes)
    fn selftest(&self, points: usize, seed: &mut u64) -> (u64, u64) {
        let mut rnd = || {
            *seed = seed.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = *seed;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        let nodes: Vec<N> = self.memo.keys().copied().collect();
        let (mut ok, mut bad) = (0, 0);
        for _ in 0..points {
            let scale = 2f64.powi((rnd() % 200) as i32 - 140);
            let env: Vec<u64> = self
                .d
                .vars
                .iter()
                .enumerate()
                .map(|(i, (_, t))| match t {
                    T::F32 => {
                        let (l, h) = (self.lo[i].max(-3.4e38), self.hi[i].min(3.4e38));
                        let r = rnd();
                        let m = scale * 2f64.powi((r >> 32) as i32 % if r & 4 == 0 { 4 } else { 60 }) * (1.0 + (r >> 11) as f64 / 2f64.powi(53));
                        let x = if r & 2 == 0 { m } else { -m };
                        (x.clamp(l, h) as f32).to_bits() as u64
                    }
                    t => rnd() & mask(t.bits()),
                })
                .collect();
            let call = |n: &str, a: &[u64]| -> Option<u64> {
                let x = f32::from_bits(a[0] as u32) as f64;
                let k = 1.0 + 0.03 * (a[0] % 7) as f64 / 7.0;
                match n {
                    "sum_sqrt" => Some(((x.sqrt() * k) as f32).to_bits() as u64),
                    "sum_invsqrt" => Some(((k / x.sqrt()) as f32).to_bits() as u64),
                    "sum_inv" => Some(((k / x) as f32).to_bits() as u64),
                    "ref_sqrt" => Some(f64::from_bits(a[0]).sqrt().to_bits()),
                    "any_sign" => Some(0),
                    _ => None,
                }
            };
            let vals = self.d.eval(&nodes, &env, &call);
            let fl = |n: N, b: u64| match self.d.ty(n) {
                T::F32 => f32::from_bits(b as u32) as f64,
                _ => f64::from_bits(b),
            };
            let node: HashMap<N, f64> = nodes.iter().filter_map(|n| vals[*n as usize].map(|b| (*n, fl(*n, b)))).collect();
            let mut x: Vec<f64> = vec![f64::NAN; self.lo.len()];
            for i in 0..self.d.vars.len() {
                if self.d.vars[i].1.is_f() {
                    x[i] = if self.d.vars[i].1 == T::F32 { f32::from_bits(env[i] as u32) as f64 } else { f64::from_bits(env[i]) };
                }
            }
            let pv = |p: &Poly, x: &[f64]| -> (f64, f64) {
                let (mut s, mut a) = (0.0, 0.0);
                for (m, c) in p {
                    let mut v = *c;
                    for &(w, e, ab) in m {
                        v *= x[w as usize].powi(e as i32);
                        if ab == 1 {
                            v *= x[w as usize].abs();
                        }
                    }
                    s += v;
                    a += v.abs();
                }
                (s, a)
            };
            for v in self.d.vars.len()..self.lo.len() {
                x[v] = match self.def.get(&(v as u16)) {
                    Some(Def::Node(n, s)) => node.get(n).map_or(f64::NAN, |y| y * s),
                    Some(Def::Int(i, w)) => if *w > 0 { sx(env[*i], *w) as f64 } else { env[*i] as f64 },
                    Some(Def::Abs(p)) => pv(p, &x).0.abs(),
                    Some(Def::Sum(p, s)) => pv(p, &x).0 * s,
                    None => f64::NAN,
                };
            }
            // points outside the ranges do not satisfy the assumptions
            if (0..x.len()).any(|i| !x[i].is_nan() && !(x[i] >= self.lo[i] && x[i] <= self.hi[i])) || self.def.keys().any(|v| x[*v as usize].is_nan()) {
                continue;
            }
            for (n, v) in &self.memo {
                // a decided condition need not hold at this point
                if self.undecided(*n, &env, &call) {
                    continue;
                }
                let Some(y) = node.get(n) else { continue };
                let ((s, a), (q, _)) = (pv(&v.p, &x), pv(&v.q, &x));
                if !y.is_finite() || (y - s).abs() > q * (1.0 + 1e-9) + a * 1e-14 + 1e-290 {
                    bad += 1;
                    if bad < 4 {
                        println!("  escape: {} value {:e} exact {:e} bound {:e} at {:?}", self.d.show(*n, 3), y, s, q, x);
                    }
                } else {
                    ok += 1;
                }
            }
            for (i, (f, _)) in self.facts.iter().enumerate() {
                if self.assumed.contains(&i) {
                    continue;
                }
                // a fact about a node below a condition decided otherwise at this point
                let open = f.keys().flatten().any(|(v, _, _)| matches!(self.def.get(v), Some(Def::Node(n, _)) if self.undecided(*n, &env, &call)));
                if open {
                    continue;
                }
                let (s, a) = pv(f, &x);
                if s < -1e-13 * a {
                    bad += 1;
                    if bad < 4 {
                        println!("  fact {} fails: {:e} of {:e}: {:?}", i, s, a, f);
                    }
                } else {
                    ok += 1;
                }
            }
        }
        (ok, bad)
    }
    /// whether a condition below `n` has another value at this point than in the cube
    fn undecided(&self, n: N, env: &[u64], call: &dyn Fn(&str, &[u64]) -> Option<u64>) -> bool {
        let (mut st, mut seen) = (vec![n], std::collections::HashSet::new());
        while let Some(n) = st.pop() {
            if !seen.insert(n) {
                continue;
            }
            let nd = &self.d.n[n as usize];
            if nd.k == K::Ite && nd.t.is_f() {
                let c = value(self.d, self.asg, nd.a[0]);
                let v = self.d.eval(&[nd.a[0]], env, call)[nd.a[0] as usize];
                if c.map(|x| x as u64) != v {
                    return true;
                }
            }
            st.extend(nd.a.iter().copied());
        }
        false
    }
    /// a bound of a magnitude: with the average of the magnitudes for the magnitude of an average
    fn magnitude(&self, m: &Mono) -> Option<Mono> {
        let k = m.iter().position(|&(v, e, z)| e == 0 && z == 1 && self.avgabs.contains_key(&v))?;
        let b = self.avgabs[&m[k].0];
        let rest: Mono = m.iter().enumerate().filter(|x| x.0 != k).map(|x| *x.1).collect();
        Some(self.mulm(&rest, &vec![(b, 1, 0)]))
    }
    /// whether the facts exclude p + q > 0
    fn refute(&mut self, g: &V) -> bool {
        let mut p = g.p.clone();
        for (m, c) in &g.q {
            let x = p.entry(m.clone()).or_insert(0.0);
            *x = (*x + c).next_up();
        }
        self.query(Some(&p))
    }
    fn query(&mut self, strict: Option<&Poly>) -> bool {
        let mut all: Vec<(Poly, bool)> = self.facts.clone();
        if let Some(p) = strict {
            all.push((p.clone(), true));
        }
        // products with powers of the fresh variables
        if !self.fresh.is_empty() && self.fresh.len() <= 4 {
            for (p, _) in all.clone() {
                for &v in &self.fresh {
                    for e in [-2i8, -1, 1, 2] {
                        if e < 0 && self.lo[v as usize] <= 0.0 {
                            continue;
                        }
                        let f = vec![(v, e, 0i8)];
                        let mut r = Poly::new();
                        for (m, c) in &p {
                            *r.entry(self.mulm(m, &f)).or_insert(0.0) += c;
                        }
                        all.push((r, false));
                    }
                }
            }
        }
        let mut monos: BTreeSet<Mono> = BTreeSet::new();
        for (p, _) in &all {
            for m in p.keys() {
                monos.insert(m.clone());
                let m = self.absm(m);
                monos.extend(self.magnitude(&m));
                monos.insert(m);
            }
        }
        monos.remove(&vec![]);
        let id: HashMap<Mono, usize> = monos.iter().cloned().enumerate().map(|(i, m)| (m, i)).collect();
        let mut t = String::from("(set-logic QF_LRA)\n");
        for i in 0..id.len() {
            let _ = writeln!(t, "(declare-const m{} Real)", i);
        }
        for (m, i) in &id {
            if self.definite(m) {
                let (l, h) = self.mrange(m);
                let _ = writeln!(t, "(assert (>= m{} {}))", i, num(l.max(0.0)));
                if h.is_finite() {
                    let _ = writeln!(t, "(assert (<= m{} {}))", i, num(h));
                }
                if let Some(j) = self.magnitude(m).and_then(|m| id.get(&m)) {
                    let _ = writeln!(t, "(assert (<= m{} m{}))", i, j);
                }
                // a number of items times the rest
                for k in 0..m.len() {
                    let v = m[k].0;
                    if m[k].1 >= 1 && self.counts.contains(&v) {
                        let mut less = m.clone();
                        less[k].1 -= 1;
                        if let Some(j) = id.get(&self.norm(less)) {
                            let _ = writeln!(t, "(assert (and (>= m{0} (* {2} m{1})) (<= m{0} (* {3} m{1}))))", i, j, num(self.lo[v as usize]), num(self.hi[v as usize]));
                        }
                    }
                }
                // 2|x||y| <= x^2 + y^2
                let odd: Vec<usize> = (0..m.len()).filter(|&k| (m[k].1 + m[k].2) & 1 == 1 && m[k].1 + m[k].2 > 0).collect();
                for a in 0..odd.len() {
                    for b in 0..a {
                        let mv = |x: usize, y: usize| {
                            self.norm(
                                m.iter()
                                    .enumerate()
                                    .map(|(k, &(v, e, z))| {
                                        let t = e + z + if k == x { 1 } else if k == y { -1 } else { 0 };
                                        if self.nonneg(v) { (v, t, 0) } else { (v, 0, t) }
                                    })
                                    .collect(),
                            )
                        };
                        if let (Some(p), Some(q)) = (id.get(&mv(odd[a], odd[b])), id.get(&mv(odd[b], odd[a]))) {
                            let _ = writeln!(t, "(assert (<= (* 2.0 m{}) (+ m{} m{})))", i, p, q);
                        }
                    }
                }
            } else {
                let j = id[&self.absm(m)];
                let _ = writeln!(t, "(assert (and (<= m{} m{}) (<= (- m{}) m{})))", i, j, i, j);
            }
        }
        for (p, strict) in &all {
            let mut s = String::new();
            for (m, c) in p {
                if !c.is_finite() {
                    return false;
                }
                if m.is_empty() {
                    let _ = write!(s, " {}", num(*c));
                } else {
                    let _ = write!(s, " (* {} m{})", num(*c), id[m]);
                }
            }
            let _ = writeln!(t, "(assert ({} (+ 0.0{}) 0.0))", if *strict { ">" } else { ">=" }, s);
        }
        t += "(check-sat)\n";
        self.nq += 1;
        let (a, _, s) = smt::solve(&t, &[], 0, self.file, 30.0, &["z3"]);
        self.secs += s;
        a == smt::Ans::Unsat
    }
}

/// decimal text of m * 2^k
fn big(m: u64, k: u32) -> String {
    let mut dg: Vec<u8> = m.to_string().bytes().rev().map(|b| b - b'0').collect();
    for _ in 0..k {
        let mut c = 0;
        for x in dg.iter_mut() {
            let y = *x * 2 + c;
            *x = y % 10;
            c = y / 10;
        }
        if c > 0 {
            dg.push(c);
        }
    }
    dg.iter().rev().map(|d| (d + b'0') as char).collect()
}
fn num(x: f64) -> String {
    if x == 0.0 {
        return "0.0".into();
    }
    let b = x.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let (mut m, mut k) = if e == 0 { (b, -1074) } else { ((b & ((1 << 52) - 1)) | (1 << 52), e - 1075) };
    while m & 1 == 0 {
        m >>= 1;
        k += 1;
    }
    let s = if k >= 0 { format!("{}.0", big(m, k as u32)) } else { format!("(/ {}.0 {}.0)", m, big(1, (-k) as u32)) };
    if x < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

/// truth of a boolean node under the literals of a cube
fn value(d: &Dag, asg: &BTreeMap<N, bool>, n: N) -> Option<bool> {
    if let Some(b) = asg.get(&n) {
        return Some(*b);
    }
    let nd = &d.n[n as usize];
    match nd.k {
        K::Const => Some(nd.imm == 1),
        K::And | K::Or => {
            let (a, b) = (value(d, asg, nd.a[0]), value(d, asg, nd.a[1]));
            let dom = nd.k == K::Or;
            if a == Some(dom) || b == Some(dom) {
                Some(dom)
            } else if a.is_some() && b.is_some() {
                Some(!dom)
            } else {
                None
            }
        }
        K::Xor => Some(value(d, asg, nd.a[0])? ^ value(d, asg, nd.a[1])?),
        K::Ite => match value(d, asg, nd.a[0]) {
            Some(c) => value(d, asg, nd.a[if c { 1 } else { 2 }]),
            None => {
                let (a, b) = (value(d, asg, nd.a[1])?, value(d, asg, nd.a[2])?);
                if a == b {
                    Some(a)
                } else {
                    None
                }
            }
        },
        _ => None,
    }
}

#[derive(Clone)]
struct Cube {
    asg: BTreeMap<N, bool>,
    todo: Vec<(N, bool)>,
}

/// decomposes the deterministic part of the pending conditions; returns the condition to split on
fn saturate(d: &Dag, c: &mut Cube) -> Result<Option<N>, ()> {
    let mut wait: Vec<(N, bool)> = vec![];
    loop {
        let Some((n, b)) = c.todo.pop() else {
            // conditions that wait for a split
            let mut again = false;
            let mut first = None;
            for (n, b) in std::mem::take(&mut wait) {
                match value(d, &c.asg, n) {
                    Some(v) if v == b => {}
                    Some(_) => return Err(()),
                    None => {
                        let nd = &d.n[n as usize];
                        match nd.k {
                            K::And | K::Or => {
                                let (x, y) = (value(d, &c.asg, nd.a[0]), value(d, &c.asg, nd.a[1]));
                                if x.is_some() {
                                    c.todo.push((nd.a[1], b));
                                    again = true;
                                } else if y.is_some() {
                                    c.todo.push((nd.a[0], b));
                                    again = true;
                                } else {
                                    first = Some(nd.a[0]);
                                    wait.push((n, b));
                                }
                            }
                            K::Xor => {
                                match (value(d, &c.asg, nd.a[0]), value(d, &c.asg, nd.a[1])) {
                                    (Some(x), _) => {
                                        c.todo.push((nd.a[1], b ^ x));
                                        again = true;
                                    }
                                    (_, Some(y)) => {
                                        c.todo.push((nd.a[0], b ^ y));
                                        again = true;
                                    }
                                    _ => {
                                        first = Some(nd.a[0]);
                                        wait.push((n, b));
                                    }
                                }
                            }
                            K::Ite => match value(d, &c.asg, nd.a[0]) {
                                Some(x) => {
                                    c.todo.push((nd.a[if x { 1 } else { 2 }], b));
                                    again = true;
                                }
                                None => {
                                    first = Some(nd.a[0]);
                                    wait.push((n, b));
                                }
                            },
                            _ => unreachable!(),
                        }
                    }
                }
            }
            if again {
                continue;
            }
            c.todo = wait;
            return Ok(first);
        };
        match value(d, &c.asg, n) {
            Some(v) if v == b => continue,
            Some(_) => return Err(()),
            None => {}
        }
        let nd = &d.n[n as usize];
        match nd.k {
            K::And if b => c.todo.extend([(nd.a[0], true), (nd.a[1], true)]),
            K::Or if !b => c.todo.extend([(nd.a[0], false), (nd.a[1], false)]),
            K::And | K::Or | K::Xor | K::Ite => wait.push((n, b)),
            _ => {
                c.asg.insert(n, b);
            }
        }
    }
}

pub struct Report {
    pub proved: bool,
    pub note: String,
    pub secs: f64,
}

/// whether `goal` is impossible
pub fn prove(d: &Dag, goal: N, sums: bool, file: &str, deadline: Instant, mut test: Option<&mut (u64, u64, u64)>) -> Report {
    let mut work = vec![Cube { asg: BTreeMap::new(), todo: vec![(goal, true)] }];
    let (mut cubes, mut queries, mut secs) = (0usize, 0usize, 0.0);
    let fail = |n: String, secs: f64| Report { proved: false, note: n, secs };
    while let Some(mut c) = work.pop() {
        if Instant::now() > deadline {
            return fail("out of time".into(), secs);
        }
        let split = match saturate(d, &mut c) {
            Err(()) => continue,
            Ok(s) => s,
        };
        let split = match split {
            Some(s) => Some(s),
            None => {
                // a cube: arguments bounded by its literals
                let nv = d.vars.len();
                let (mut lo, mut hi) = (vec![f64::NEG_INFINITY; nv], vec![f64::INFINITY; nv]);
                for (&n, &b) in &c.asg {
                    let nd = &d.n[n as usize];
                    if !matches!(nd.k, K::FOle | K::FOlt) || !b {
                        continue;
                    }
                    bounds(d, nd.a[0], nd.a[1], &mut lo, &mut hi);
                }
                let asg = c.asg.clone();
                let mut l = Leaf {
                    d,
                    asg: &asg,
                    lo,
                    hi,
                    memo: HashMap::new(),
                    facts: vec![],
                    fresh: vec![],
                    file,
                    nq: 0,
                    secs: 0.0,
                    split: None,
                    litvars: HashMap::new(),
                    divs: HashMap::new(),
                    zvars: HashMap::new(),
                    def: HashMap::new(),
                    assumed: Default::default(),
                    sums,
                    sumvars: HashMap::new(),
                    cutvars: HashMap::new(),
                    ints: HashMap::new(),
                    items: HashMap::new(),
                    peritem: BTreeSet::new(),
                    avgs: HashMap::new(),
                    counts: BTreeSet::new(),
                    avgabs: HashMap::new(),
                    in_fold: false,
                };
                if (0..nv).any(|i| !d.vars[i].1.is_f() && l.int_range(i).map_or(true, |r| r.0 > r.1)) {
                    cubes += 1;
                    continue;
                }
                let r = l.literals();
                let mut ok = false;
                if r.is_ok() {
                    ok = l.query(None);
                    if let Some((seed, ok, bad)) = test.as_deref_mut() {
                        let (a, b) = l.selftest(400, seed);
                        *ok += a;
                        *bad += b;
                    }
                }
                queries += l.nq;
                secs += l.secs;
                if ok {
                    cubes += 1;
                    continue;
                }
                match (r, l.split) {
                    (Err(_), Some(s)) => Some(s),
                    _ => {
                        // which literal could not be evaluated
                        let mut why = String::new();
                        for (&n, b) in &asg {
                            let nd = &d.n[n as usize];
                            if std::env::var("FCV_POLY").is_ok() {
                                println!("{} {}", b, d.show(n, 9));
                                for (v, x) in &l.def {
                                    println!("   v{} {} [{:e}, {:e}]", v, match x { Def::Node(n, _) => format!("node {}", d.show(*n, 3)), Def::Int(i, _) => format!("int {}", i), Def::Abs(p) => format!("abs {:?}", p), Def::Sum(p, _) => format!("sum {:?}", p) }, l.lo[*v as usize], l.hi[*v as usize]);
                                }
                                println!("   avgs {:?} items {:?}", l.avgs, l.items);
                                for &x in &nd.a {
                                    println!("   {:?}", l.memo.get(&x));
                                }
                            }
                            if matches!(nd.k, K::FOle | K::FOlt | K::FOeq) {
                                for &x in &nd.a {
                                    if let Err(e) = l.val(x) {
                                        if !why.contains(&e) {
                                            why += &e;
                                            why += "; ";
                                        }
                                    }
                                }
                            }
                        }
                        return fail(format!("poly: not shown ({} cubes, {} queries; {})", cubes, queries, why), secs);
                    }
                }
            }
        };
        let s = split.unwrap();
        if cubes + work.len() > 3000 {
            return fail("poly: too many cases".into(), secs);
        }
        let mut e = c.clone();
        c.todo.push((s, true));
        e.todo.push((s, false));
        work.push(c);
        work.push(e);
    }
    Report { proved: true, note: format!("{} cases, {} linear queries", cubes, queries), secs }
}

/// x <= y bounds an argument
fn bounds(d: &Dag, x: N, y: N, lo: &mut [f64], hi: &mut [f64]) {
    let c = |n: N| -> Option<f64> {
        let nd = &d.n[n as usize];
        match (nd.k, nd.t) {
            (K::Const, T::F32) => Some(f32::from_bits(nd.imm as u32) as f64),
            (K::Const, T::F64) => Some(f64::from_bits(nd.imm)),
            _ => None,
        }
    };
    // the argument below extensions, negations and magnitudes
    fn arg(d: &Dag, n: N) -> Option<(usize, f64, bool)> {
        let nd = &d.n[n as usize];
        match nd.k {
            K::Var => Some((nd.imm as usize, 1.0, false)),
            K::FpExt => arg(d, nd.a[0]),
            K::FNeg => arg(d, nd.a[0]).map(|(v, s, a)| (v, -s, a)),
            K::FAbs => arg(d, nd.a[0]).map(|(v, _, _)| (v, 1.0, true)),
            _ => None,
        }
    }
    if let (Some((v, s, a)), Some(k)) = (arg(d, x), c(y)) {
        // s*v <= k, s*|v| <= k
        if a && s > 0.0 {
            hi[v] = hi[v].min(k);
            lo[v] = lo[v].max(-k);
        } else if !a && s > 0.0 {
            hi[v] = hi[v].min(k);
        } else if !a {
            lo[v] = lo[v].max(-k);
        }
    }
    if let (Some(k), Some((v, s, a))) = (c(x), arg(d, y)) {
        // k <= s*v
        if a && s < 0.0 {
            hi[v] = hi[v].min(-k);
            lo[v] = lo[v].max(k);
        } else if !a && s > 0.0 {
            lo[v] = lo[v].max(k);
        } else if !a {
            hi[v] = hi[v].min(-k);
        }
    }
}
