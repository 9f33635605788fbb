//! Hash-consed term graph with simplification. Every rewrite is an equality of the
//! LLVM/IEEE semantics; NaN payloads and NaN signs produced by arithmetic are unspecified.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    I(u8),
    F32,
    F64,
}
impl T {
    pub fn bits(self) -> u32 {
        match self {
            T::I(w) => w as u32,
            T::F32 => 32,
            T::F64 => 64,
        }
    }
    pub fn is_f(self) -> bool {
        !matches!(self, T::I(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Zext,
    Sext,
    Extract,
    Concat,
    Ctlz,
    Cttz,
    Ctpop,
    Ite,
    FAdd,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FCopysign,
    FSqrt,
    FOeq,
    FOlt,
    FOle,
    ToBits,
    OfBits,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
    Call,
}

pub type N = u32;

#[derive(Clone, Copy, PartialEq)]
enum Mag {
    Const(u64),
    Bits(N),
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]

pub struct Node {
    pub k: K,
    pub t: T,
    pub a: Vec<N>,
    pub imm: u64,
}

#[derive(Default, Clone)]
pub struct Dag {
    pub n: Vec<Node>,
    map: HashMap<Node, N>,
    pub vars: Vec<(String, T)>,
    pub calls: Vec<String>,
    /// loops over all items: a call `fold_i(init, n)` is the value after n rounds of
    /// `accumulator := template`, see exec.rs
    pub folds: Vec<Fold>,
    /// (number of items, bound of their magnitude)
    pub items: Option<(N, f64)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fold {
    pub acc: N,
    pub index: N,
    pub template: N,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn f32b(b: u64) -> f32 {
    f32::from_bits(b as u32)
}
fn f64b(b: u64) -> f64 {
    f64::from_bits(b)
}

pub fn fp_to_int(v: f64, w: u32, signed: bool) -> u64 {
    if v.is_nan() {
        return 0;
    }
    if signed {
        let hi = (1i128 << (w - 1)) - 1;
        let lo = -(1i128 << (w - 1));
        let x = if v >= 1e30 {
            hi
        } else if v <= -1e30 {
            lo
        } else {
            (v as i128).clamp(lo, hi)
        };
        (x as u64) & mask(w)
    } else {
        let hi = (1i128 << w) - 1;
        let x = if v >= 1e30 { hi } else if v <= 0.0 { 0 } else { (v as i128).clamp(0, hi) };
        (x as u64) & mask(w)
    }
}

/// concrete semantics of one operator; used for folding and for the point evaluator
pub fn eval_op(k: K, t: T, imm: u64, at: &[T], a: &[u64]) -> Option<u64> {
    let w = t.bits();
    let m = mask(w);
    let aw = at.first().map(|t| t.bits()).unwrap_or(0);
    let f32r = |v: f32| Some(v.to_bits() as u64);
    let isf32 = at.first() == Some(&T::F32);
    Some(match k {
        K::Add => a[0].wrapping_add(a[1]) & m,
        K::Sub => a[0].wrapping_sub(a[1]) & m,
        K::Mul => a[0].wrapping_mul(a[1]) & m,
        K::UDiv => {
            if a[1] == 0 {
                return None;
            }
            a[0] / a[1]
        }
        K::URem => {
            if a[1] == 0 {
                return None;
            }
            a[0] % a[1]
        }
        K::SDiv => {
            if a[1] == 0 {
                return None;
            }
            (sx(a[0], w).wrapping_div(sx(a[1], w)) as u64) & m
        }
        K::SRem => {
            if a[1] == 0 {
                return None;
            }
            (sx(a[0], w).wrapping_rem(sx(a[1], w)) as u64) & m
        }
        K::And => a[0] & a[1],
        K::Or => a[0] | a[1],
        K::Xor => a[0] ^ a[1],
        K::Shl => {
            if a[1] >= w as u64 {
                0
            } else {
                (a[0] << a[1]) & m
            }
        }
        K::LShr => {
            if a[1] >= w as u64 {
                0
            } else {
                a[0] >> a[1]
            }
        }
        K::AShr => {
            let s = a[1].min(w as u64 - 1);
            ((sx(a[0], w) >> s) as u64) & m
        }
        K::Eq => (a[0] == a[1]) as u64,
        K::Ult => (a[0] < a[1]) as u64,
        K::Ule => (a[0] <= a[1]) as u64,
        K::Slt => (sx(a[0], aw) < sx(a[1], aw)) as u64,
        K::Sle => (sx(a[0], aw) <= sx(a[1], aw)) as u64,
        K::Zext => a[0],
        K::Sext => (sx(a[0], aw) as u64) & m,
        K::Extract => (a[0] >> imm) & m,
        K::Concat => {
            let lw = at[1].bits();
            ((a[0] << lw) | a[1]) & m
        }
        K::Ctlz => {
            if a[0] == 0 {
                w as u64
            } else {
                (a[0].leading_zeros() - (64 - w)) as u64
            }
        }
        K::Cttz => {
            if a[0] == 0 {
                w as u64
            } else {
                a[0].trailing_zeros() as u64
            }
        }
        K::Ctpop => a[0].count_ones() as u64,
        K::Ite => {
            if a[0] == 1 {
                a[1]
            } else {
                a[2]
            }
        }
        K::FAdd if isf32 => return f32r(f32b(a[0]) + f32b(a[1])),
        K::FMul if isf32 => return f32r(f32b(a[0]) * f32b(a[1])),
        K::FDiv if isf32 => return f32r(f32b(a[0]) / f32b(a[1])),
        K::FRem if isf32 => return f32r(f32b(a[0]) % f32b(a[1])),
        K::FSqrt if isf32 => return f32r(f32b(a[0]).sqrt()),
        K::FNeg if isf32 => a[0] ^ 0x8000_0000,
        K::FAbs if isf32 => a[0] & 0x7fff_ffff,
        K::FCopysign if isf32 => (a[0] & 0x7fff_ffff) | (a[1] & 0x8000_0000),
        K::FOeq if isf32 => (f32b(a[0]) == f32b(a[1])) as u64,
        K::FOlt if isf32 => (f32b(a[0]) < f32b(a[1])) as u64,
        K::FOle if isf32 => (f32b(a[0]) <= f32b(a[1])) as u64,
        K::FAdd => (f64b(a[0]) + f64b(a[1])).to_bits(),
        K::FMul => (f64b(a[0]) * f64b(a[1])).to_bits(),
        K::FDiv => (f64b(a[0]) / f64b(a[1])).to_bits(),
        K::FRem => (f64b(a[0]) % f64b(a[1])).to_bits(),
        K::FSqrt => f64b(a[0]).sqrt().to_bits(),
        K::FNeg => a[0] ^ (1 << 63),
        K::FAbs => a[0] & !(1 << 63),
        K::FCopysign => (a[0] & !(1 << 63)) | (a[1] & (1 << 63)),
        K::FOeq => (f64b(a[0]) == f64b(a[1])) as u64,
        K::FOlt => (f64b(a[0]) < f64b(a[1])) as u64,
        K::FOle => (f64b(a[0]) <= f64b(a[1])) as u64,
        K::ToBits | K::OfBits => a[0],
        K::SiToFp => {
            let v = sx(a[0], aw);
            if t == T::F32 {
                (v as f32).to_bits() as u64
            } else {
                (v as f64).to_bits()
            }
        }
        K::UiToFp => {
            if t == T::F32 {
                (a[0] as f32).to_bits() as u64
            } else {
                (a[0] as f64).to_bits()
            }
        }
        K::FpToSi | K::FpToUi => {
            let v = if isf32 { f32b(a[0]) as f64 } else { f64b(a[0]) };
            fp_to_int(v, w, k == K::FpToSi)
        }
        K::FpExt => (f32b(a[0]) as f64).to_bits(),
        K::FpTrunc => ((f64b(a[0])) as f32).to_bits() as u64,
        K::Const | K::Var | K::Call => return None,
    })
}

impl Dag {
    /// the term with some subterms replaced
    pub fn subst(&mut self, n: N, map: &mut HashMap<N, N>) -> N {
        if let Some(&r) = map.get(&n) {
            return r;
        }
        let nd = self.n[n as usize].clone();
        let a: Vec<N> = nd.a.iter().map(|&x| self.subst(x, map)).collect();
        let r = if a == nd.a {
            n
        } else if nd.k == K::Call {
            self.intern(K::Call, nd.t, a, nd.imm)
        } else {
            self.mk(nd.k, nd.t, &a, nd.imm)
        };
        map.insert(n, r);
        r
    }
    /// whether a subterm satisfies p
    pub fn is_call(&self, n: N, name: &str) -> bool {
        let nd = &self.n[n as usize];
        nd.k == K::Call && self.calls[nd.imm as usize] == name
    }
    pub fn any(&self, n: N, p: &dyn Fn(N) -> bool, seen: &mut std::collections::HashSet<N>) -> bool {
        if !seen.insert(n) {
            return false;
        }
        p(n) || self.n[n as usize].a.iter().any(|&x| self.any(x, p, seen))
    }
    pub fn intern(&mut self, k: K, t: T, a: Vec<N>, imm: u64) -> N {
        let nd = Node { k, t, a, imm };
        if let Some(&i) = self.map.get(&nd) {
            return i;
        }
        let i = self.n.len() as N;
        self.n.push(nd.clone());
        self.map.insert(nd, i);
        i
    }
    pub fn ty(&self, n: N) -> T {
        self.n[n as usize].t
    }
    pub fn k(&self, n: N) -> K {
        self.n[n as usize].k
    }
    pub fn arg(&self, n: N, i: usize) -> N {
        self.n[n as usize].a[i]
    }
    pub fn cst(&self, n: N) -> Option<u64> {
        let nd = &self.n[n as usize];
        if nd.k == K::Const {
            Some(nd.imm)
        } else {
            None
        }
    }
    pub fn konst(&mut self, t: T, v: u64) -> N {
        self.intern(K::Const, t, vec![], v & mask(t.bits()))
    }
    pub fn var(&mut self, name: &str, t: T) -> N {
        let i = self.vars.len() as u64;
        self.vars.push((name.to_string(), t));
        self.intern(K::Var, t, vec![], i)
    }
    pub fn tru(&mut self) -> N {
        self.konst(T::I(1), 1)
    }
    pub fn fls(&mut self) -> N {
        self.konst(T::I(1), 0)
    }
    pub fn not(&mut self, a: N) -> N {
        let one = self.tru();
        self.mk(K::Xor, T::I(1), &[a, one], 0)
    }
    pub fn is_not(&self, a: N) -> Option<N> {
        let nd = &self.n[a as usize];
        if nd.k == K::Xor && nd.t == T::I(1) {
            if self.cst(nd.a[1]) == Some(1) {
                return Some(nd.a[0]);
            }
            if self.cst(nd.a[0]) == Some(1) {
                return Some(nd.a[1]);
            }
        }
        None
    }
    pub fn and(&mut self, a: N, b: N) -> N {
        self.mk(K::And, T::I(1), &[a, b], 0)
    }
    pub fn or(&mut self, a: N, b: N) -> N {
        self.mk(K::Or, T::I(1), &[a, b], 0)
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        let t = self.ty(a);
        self.mk(K::Ite, t, &[c, a, b], 0)
    }
    pub fn f32c(&mut self, v: f32) -> N {
        self.konst(T::F32, v.to_bits() as u64)
    }
    pub fn to_bits(&mut self, a: N) -> N {
        match self.ty(a) {
            T::I(_) => a,
            T::F32 => self.mk(K::ToBits, T::I(32), &[a], 0),
            T::F64 => self.mk(K::ToBits, T::I(64), &[a], 0),
        }
    }
    pub fn of_bits(&mut self, a: N, t: T) -> N {
        if t.is_f() && !self.ty(a).is_f() {
            self.mk(K::OfBits, t, &[a], 0)
        } else {
            a
        }
    }
    pub fn mk(&mut self, k: K, t: T, args: &[N], imm: u64) -> N {
        let mut a: Vec<N> = args.to_vec();
        // constant folding
        if k != K::Const && k != K::Var && k != K::Call {
            let cs: Option<Vec<u64>> = a.iter().map(|&x| self.cst(x)).collect();
            if let Some(cs) = cs {
                let ts: Vec<T> = a.iter().map(|&x| self.ty(x)).collect();
                if let Some(v) = eval_op(k, t, imm, &ts, &cs) {
                    return self.konst(t, v);
                }
            }
        }
        // commutative ordering: constants last, otherwise by id
        if matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq | K::FAdd | K::FMul | K::FOeq) {
            let c0 = self.cst(a[0]).is_some();
            let c1 = self.cst(a[1]).is_some();
            if (c0 && !c1) || (c0 == c1 && a[0] > a[1]) {
                a.swap(0, 1);
            }
        }
        let w = t.bits();
        let ones = mask(w);
        let c1 = if a.len() > 1 { self.cst(a[1]) } else { None };
        // lift integer operators over if-then-else with constant leaves
        if !t.is_f() || k == K::OfBits {
            let liftable = matches!(
                k,
                K::Add | K::Sub | K::Mul | K::And | K::Or | K::Xor | K::Shl | K::LShr | K::AShr | K::Eq | K::Ult | K::Ule
                    | K::Slt | K::Sle | K::Zext | K::Sext | K::Extract
            );
            if liftable {
                let nonc: Vec<usize> = (0..a.len()).filter(|&i| self.cst(a[i]).is_none()).collect();
                if nonc.len() == 1 && self.ite_const(a[nonc[0]], 6) && (t != T::I(1) || self.ty(a[nonc[0]]) != T::I(1)) {
                    let i = nonc[0];
                    let nd = self.n[a[i] as usize].clone();
                    let mut x = a.clone();
                    x[i] = nd.a[1];
                    let p = self.mk(k, t, &x, imm);
                    x[i] = nd.a[2];
                    let q = self.mk(k, t, &x, imm);
                    return self.mk(K::Ite, t, &[nd.a[0], p, q], 0);
                }
            }
        }
        match k {
            K::Add => {
                if c1 == Some(0) {
                    return a[0];
                }
                // (x + c) + d
                if let Some(d) = c1 {
                    if self.k(a[0]) == K::Add {
                        if let Some(c) = self.cst(self.arg(a[0], 1)) {
                            let x = self.arg(a[0], 0);
                            let s = self.konst(t, c.wrapping_add(d));
                            return self.mk(K::Add, t, &[x, s], 0);
                        }
                    }
                }
            }
            K::Sub => {
                if c1 == Some(0) {
                    return a[0];
                }
                if a[0] == a[1] {
                    return self.konst(t, 0);
                }
                if let Some(c) = c1 {
                    let s = self.konst(t, (!c).wrapping_add(1));
                    return self.mk(K::Add, t, &[a[0], s], 0);
                }
            }
            K::Mul => {
                if c1 == Some(0) {
                    return a[1];
                }
                if c1 == Some(1) {
                    return a[0];
                }
            }
            K::UDiv | K::SDiv if c1 == Some(1) => return a[0],
            // by a power of two
            K::UDiv | K::URem if matches!(c1, Some(c) if c.is_power_of_two()) => {
                let c = c1.unwrap();
                return if k == K::UDiv {
                    let s = self.konst(t, c.trailing_zeros() as u64);
                    self.mk(K::LShr, t, &[a[0], s], 0)
                } else {
                    let s = self.konst(t, c - 1);
                    self.mk(K::And, t, &[a[0], s], 0)
                };
            }
            K::And => {
                if a[0] == a[1] {
                    return a[0];
                }
                if c1 == Some(ones) {
                    return a[0];
                }
                if c1 == Some(0) {
                    return a[1];
                }
                if let (Some(c), K::And) = (c1, self.k(a[0])) {
                    if let Some(d) = self.cst(self.arg(a[0], 1)) {
                        let x = self.arg(a[0], 0);
                        let s = self.konst(t, c & d);
                        return self.mk(K::And, t, &[x, s], 0);
                    }
                }
                if t == T::I(1) {
                    if self.is_not(a[0]) == Some(a[1]) || self.is_not(a[1]) == Some(a[0]) {
                        return self.fls();
                    }
                    // absorption
                    for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                        if self.k(x) == K::And && self.n[x as usize].a.contains(&y) {
                            return x;
                        }
                        if self.k(x) == K::Or && self.n[x as usize].a.contains(&y) {
                            return y;
                        }
                        if self.k(x) == K::And {
                            for z in self.n[x as usize].a.clone() {
                                if self.is_not(z) == Some(y) || self.is_not(y) == Some(z) {
                                    return self.fls();
                                }
                            }
                        }
                        if self.k(x) == K::Or {
                            let o = self.n[x as usize].a.clone();
                            for i in 0..2 {
                                if self.is_not(o[i]) == Some(y) || self.is_not(y) == Some(o[i]) {
                                    return self.mk(K::And, t, &[y, o[1 - i]], 0);
                                }
                            }
                        }
                    }
                }
            }
            K::Or => {
                if a[0] == a[1] {
                    return a[0];
                }
                if c1 == Some(0) {
                    return a[0];
                }
                if let (Some(c), K::Or) = (c1, self.k(a[0])) {
                    if let Some(d) = self.cst(self.arg(a[0], 1)) {
                        let x = self.arg(a[0], 0);
                        let s = self.konst(t, c | d);
                        return self.mk(K::Or, t, &[x, s], 0);
                    }
                }
                if c1 == Some(ones) {
                    return a[1];
                }
                if t == T::I(1) {
                    if self.is_not(a[0]) == Some(a[1]) || self.is_not(a[1]) == Some(a[0]) {
                        return self.tru();
                    }
                    for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                        if self.k(x) == K::Or && self.n[x as usize].a.contains(&y) {
                            return x;
                        }
                        if self.k(x) == K::And && self.n[x as usize].a.contains(&y) {
                            return y;
                        }
                        if self.k(x) == K::And {
                            let o = self.n[x as usize].a.clone();
                            for i in 0..2 {
                                if self.is_not(o[i]) == Some(y) || self.is_not(y) == Some(o[i]) {
                                    return self.mk(K::Or, t, &[y, o[1 - i]], 0);
                                }
                            }
                            // (p & c) | (p & !c) = p
                            if self.k(y) == K::And {
                                let q = self.n[y as usize].a.clone();
                                for i in 0..2 {
                                    for j in 0..2 {
                                        if o[i] == q[j]
                                            && (self.is_not(o[1 - i]) == Some(q[1 - j])
                                                || self.is_not(q[1 - j]) == Some(o[1 - i]))
                                        {
                                            return o[i];
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            K::Xor => {
                if a[0] == a[1] {
                    return self.konst(t, 0);
                }
                if c1 == Some(0) {
                    return a[0];
                }
                if let Some(c) = c1 {
                    if self.k(a[0]) == K::Xor {
                        if let Some(d) = self.cst(self.arg(a[0], 1)) {
                            let x = self.arg(a[0], 0);
                            let s = self.konst(t, c ^ d);
                            return self.mk(K::Xor, t, &[x, s], 0);
                        }
                    }
                }
            }
            K::Shl | K::LShr | K::AShr => {
                if c1 == Some(0) {
                    return a[0];
                }
                if let Some(c) = c1 {
                    if c >= w as u64 && k != K::AShr {
                        return self.konst(t, 0);
                    }
                    if self.k(a[0]) == k {
                        if let Some(d) = self.cst(self.arg(a[0], 1)) {
                            let x = self.arg(a[0], 0);
                            let s = self.konst(t, c + d);
                            return self.mk(k, t, &[x, s], 0);
                        }
                    }
                    // there and back: a mask
                    if c < w as u64 && self.n[a[0] as usize].a.len() == 2 && self.cst(self.arg(a[0], 1)) == Some(c) {
                        let x = self.arg(a[0], 0);
                        let m = match (k, self.k(a[0])) {
                            (K::Shl, K::LShr | K::AShr) => Some((ones << c) & ones),
                            (K::LShr, K::Shl) => Some(ones >> c),
                            _ => None,
                        };
                        if let Some(m) = m {
                            let s = self.konst(t, m);
                            return self.mk(K::And, t, &[x, s], 0);
                        }
                    }
                }
            }
            K::Eq => {
                if a[0] == a[1] {
                    return self.tru();
                }
                if self.k(a[0]) == K::Zext && self.k(a[1]) == K::Zext {
                    let (x, y) = (self.arg(a[0], 0), self.arg(a[1], 0));
                    if self.ty(x) == self.ty(y) {
                        return self.mk(K::Eq, T::I(1), &[x, y], 0);
                    }
                }
                if let Some(c) = c1 {
                    let nd = self.n[a[0] as usize].clone();
                    if nd.t == T::I(1) {
                        return if c == 1 { a[0] } else { self.not(a[0]) };
                    }
                    if nd.k == K::Zext {
                        let it = self.ty(nd.a[0]);
                        if c > mask(it.bits()) {
                            return self.fls();
                        }
                        let cc = self.konst(it, c);
                        return self.mk(K::Eq, T::I(1), &[nd.a[0], cc], 0);
                    }
                    if nd.k == K::Xor {
                        if let Some(d) = self.cst(nd.a[1]) {
                            let cc = self.konst(nd.t, c ^ d);
                            return self.mk(K::Eq, T::I(1), &[nd.a[0], cc], 0);
                        }
                    }
                    // one branch is a constant
                    if nd.k == K::Ite && (self.cst(nd.a[1]).is_some() || self.cst(nd.a[2]).is_some()) {
                        let p = self.mk(K::Eq, T::I(1), &[nd.a[1], a[1]], 0);
                        let q = self.mk(K::Eq, T::I(1), &[nd.a[2], a[1]], 0);
                        return self.ite(nd.a[0], p, q);
                    }
                    if nd.k == K::Mul {
                        if let Some(d) = self.cst(nd.a[1]) {
                            if d > 0 && self.narrow(nd.a[0], d) {
                                if c % d != 0 {
                                    return self.fls();
                                }
                                let cc = self.konst(nd.t, c / d);
                                return self.mk(K::Eq, T::I(1), &[nd.a[0], cc], 0);
                            }
                        }
                    }
                    if nd.k == K::Add {
                        if let Some(d) = self.cst(nd.a[1]) {
                            let cc = self.konst(nd.t, c.wrapping_sub(d));
                            return self.mk(K::Eq, T::I(1), &[nd.a[0], cc], 0);
                        }
                    }
                } else if self.ty(a[0]) == T::I(1) {
                    let x = self.mk(K::Xor, T::I(1), &[a[0], a[1]], 0);
                    return self.not(x);
                }
            }
            K::Ult | K::Slt if a[0] == a[1] => return self.fls(),
            K::Ule | K::Sle => {
                if a[0] == a[1] {
                    return self.tru();
                }
                // a <= b  ==  !(b < a)
                let kk = if k == K::Ule { K::Ult } else { K::Slt };
                let x = self.mk(kk, T::I(1), &[a[1], a[0]], 0);
                return self.not(x);
            }
            K::Ult => {
                // zero-extended operands
                let (z0, z1) = (self.k(a[0]) == K::Zext, self.k(a[1]) == K::Zext);
                let inner = if z0 { self.arg(a[0], 0) } else if z1 { self.arg(a[1], 0) } else { a[0] };
                let it = self.ty(inner);
                let top = mask(it.bits());
                if z0 && z1 && self.ty(self.arg(a[1], 0)) == it {
                    let y = self.arg(a[1], 0);
                    return self.mk(K::Ult, T::I(1), &[inner, y], 0);
                }
                if let (true, Some(c)) = (z0, c1) {
                    if c > top {
                        return self.tru();
                    }
                    let c = self.konst(it, c);
                    return self.mk(K::Ult, T::I(1), &[inner, c], 0);
                }
                if let (true, Some(c)) = (z1, self.cst(a[0])) {
                    if c >= top {
                        return self.fls();
                    }
                    let c = self.konst(it, c);
                    return self.mk(K::Ult, T::I(1), &[c, inner], 0);
                }
                if c1 == Some(0) {
                    return self.fls();
                }
                if c1 == Some(1) {
                    let z = self.konst(self.ty(a[0]), 0);
                    return self.mk(K::Eq, T::I(1), &[a[0], z], 0);
                }
                if self.cst(a[0]) == Some(0) {
                    let z = self.konst(self.ty(a[1]), 0);
                    let e = self.mk(K::Eq, T::I(1), &[a[1], z], 0);
                    return self.not(e);
                }
            }
            K::Zext | K::Sext => {
                if self.ty(a[0]) == t {
                    return a[0];
                }
                if k == K::Zext && self.k(a[0]) == K::Zext {
                    let x = self.arg(a[0], 0);
                    return self.mk(K::Zext, t, &[x], 0);
                }
            }
            K::Extract => {
                let nd = self.n[a[0] as usize].clone();
                if imm == 0 && nd.t == t {
                    return a[0];
                }
                match nd.k {
                    K::Extract => return self.mk(K::Extract, t, &[nd.a[0]], imm + nd.imm),
                    K::Concat => {
                        let lw = self.ty(nd.a[1]).bits() as u64;
                        if imm + w as u64 <= lw {
                            return self.mk(K::Extract, t, &[nd.a[1]], imm);
                        }
                        if imm >= lw {
                            return self.mk(K::Extract, t, &[nd.a[0]], imm - lw);
                        }
                    }
                    K::Zext | K::Sext => {
                        let it = self.ty(nd.a[0]);
                        if imm + w as u64 <= it.bits() as u64 {
                            return self.mk(K::Extract, t, &[nd.a[0]], imm);
                        }
                        if imm >= it.bits() as u64 && nd.k == K::Zext {
                            return self.konst(t, 0);
                        }
                        if imm == 0 && w > it.bits() {
                            return self.mk(nd.k, t, &[nd.a[0]], 0);
                        }
                    }
                    K::LShr => {
                        if let Some(c) = self.cst(nd.a[1]) {
                            if c + imm + w as u64 <= nd.t.bits() as u64 {
                                return self.mk(K::Extract, t, &[nd.a[0]], imm + c);
                            }
                        }
                    }
                    K::Shl => {
                        if let Some(c) = self.cst(nd.a[1]) {
                            if imm >= c {
                                return self.mk(K::Extract, t, &[nd.a[0]], imm - c);
                            }
                            if imm + w as u64 <= c {
                                return self.konst(t, 0);
                            }
                        }
                    }
                    K::And | K::Or | K::Xor => {
                        // extract of a constant mask
                        if self.cst(nd.a[1]).is_some() || imm == 0 {
                            let p = self.mk(K::Extract, t, &[nd.a[0]], imm);
                            let q = self.mk(K::Extract, t, &[nd.a[1]], imm);
                            return self.mk(nd.k, t, &[p, q], 0);
                        }
                        // zero-extended pieces combined by or
                        if nd.k == K::Or {
                            let p = self.mk(K::Extract, t, &[nd.a[0]], imm);
                            let q = self.mk(K::Extract, t, &[nd.a[1]], imm);
                            return self.mk(nd.k, t, &[p, q], 0);
                        }
                    }
                    K::Ite => {
                        let p = self.mk(K::Extract, t, &[nd.a[1]], imm);
                        let q = self.mk(K::Extract, t, &[nd.a[2]], imm);
                        return self.mk(K::Ite, t, &[nd.a[0], p, q], 0);
                    }
                    _ => {}
                }
            }
            K::Concat => {
                let h = self.n[a[0] as usize].clone();
                let l = self.n[a[1] as usize].clone();
                if h.k == K::Extract && l.k == K::Extract && h.a[0] == l.a[0] && h.imm == l.imm + l.t.bits() as u64 {
                    return self.mk(K::Extract, t, &[h.a[0]], l.imm);
                }
                // reassociate to the right: (h1 . h2) . l
                if self.cst(a[0]) == Some(0) {
                    return self.mk(K::Zext, t, &[a[1]], 0);
                }
                if h.k == K::Ite && l.k == K::Ite && h.a[0] == l.a[0] {
                    let p = self.mk(K::Concat, t, &[h.a[1], l.a[1]], 0);
                    let q = self.mk(K::Concat, t, &[h.a[2], l.a[2]], 0);
                    return self.mk(K::Ite, t, &[h.a[0], p, q], 0);
                }
            }
            K::Ite => {
                if let Some(c) = self.cst(a[0]) {
                    return if c == 1 { a[1] } else { a[2] };
                }
                if a[1] == a[2] {
                    return a[1];
                }
                if let Some(x) = self.is_not(a[0]) {
                    return self.mk(K::Ite, t, &[x, a[2], a[1]], 0);
                }
                if t.is_f() {
                    // magnitude chosen with the sign of another float
                    if let Some((y, neg)) = self.sign_test(a[0]) {
                        let (n, p) = if neg { (a[1], a[2]) } else { (a[2], a[1]) };
                        let strip = |s: &mut Self, x: N| match s.k(x) {
                            K::FNeg => s.arg(x, 0),
                            _ => x,
                        };
                        let m = strip(self, n);
                        let sb = 1u64 << (w - 1);
                        let cc = match (self.cst(n), self.cst(p)) {
                            (Some(u), Some(v)) => u == v | sb && v & sb == 0,
                            _ => false,
                        };
                        let abs = self.k(m) == K::FAbs && m == p && n != m;
                        if self.ty(y) == t && (abs || cc) {
                            return self.mk(K::FCopysign, t, &[p, y], 0);
                        }
                        if n != p && y == p && m == p {
                            // -x when negative: the magnitude
                            return self.mk(K::FAbs, t, &[p], 0);
                        }
                    }
                }
                if t == T::I(1) {
                    match (self.cst(a[1]), self.cst(a[2])) {
                        (Some(1), _) => return self.or(a[0], a[2]),
                        (Some(_), _) => {
                            let n = self.not(a[0]);
                            return self.and(n, a[2]);
                        }
                        (_, Some(0)) => return self.and(a[0], a[1]),
                        (_, Some(_)) => {
                            let n = self.not(a[0]);
                            return self.or(n, a[1]);
                        }
                        _ => {}
                    }
                }
                // nested on the same condition
                if self.k(a[1]) == K::Ite && self.arg(a[1], 0) == a[0] {
                    let x = self.arg(a[1], 1);
                    return self.mk(K::Ite, t, &[a[0], x, a[2]], 0);
                }
                if self.k(a[2]) == K::Ite && self.arg(a[2], 0) == a[0] {
                    let x = self.arg(a[2], 2);
                    return self.mk(K::Ite, t, &[a[0], a[1], x], 0);
                }
            }
            K::ToBits | K::OfBits if self.k(a[0]) == K::Ite => {
                let nd = self.n[a[0] as usize].clone();
                let p = self.mk(k, t, &[nd.a[1]], 0);
                let q = self.mk(k, t, &[nd.a[2]], 0);
                return self.mk(K::Ite, t, &[nd.a[0], p, q], 0);
            }
            K::ToBits if self.k(a[0]) == K::OfBits => return self.arg(a[0], 0),
            K::OfBits if self.k(a[0]) == K::ToBits => return self.arg(a[0], 0),
            K::OfBits => {
                // float view of bit operations on a float
                let nd = self.n[a[0] as usize].clone();
                let sb = 1u64 << (w - 1);
                if matches!(nd.k, K::And | K::Or | K::Xor) {
                    if let Some(r) = self.sign_magnitude(a[0], t) {
                        return r;
                    }
                }
                if nd.a.len() == 2 && self.k(nd.a[0]) == K::ToBits {
                    let f = self.arg(nd.a[0], 0);
                    if self.ty(f) == t {
                        if nd.k == K::And && self.cst(nd.a[1]) == Some(ones & !sb) {
                            return self.mk(K::FAbs, t, &[f], 0);
                        }
                        if nd.k == K::Xor && self.cst(nd.a[1]) == Some(sb) {
                            return self.mk(K::FNeg, t, &[f], 0);
                        }
                    }
                }
                // (x & ~sign) | (y & sign)
                if nd.k == K::Or {
                    for (p, q) in [(nd.a[0], nd.a[1]), (nd.a[1], nd.a[0])] {
                        let (pn, qn) = (self.n[p as usize].clone(), self.n[q as usize].clone());
                        if qn.k == K::And && self.cst(qn.a[1]) == Some(sb) && self.k(qn.a[0]) == K::ToBits {
                            let y = self.arg(qn.a[0], 0);
                            if pn.k == K::And && self.cst(pn.a[1]) == Some(ones & !sb) && self.k(pn.a[0]) == K::ToBits {
                                let x = self.arg(pn.a[0], 0);
                                if self.ty(x) == t && self.ty(y) == t {
                                    return self.mk(K::FCopysign, t, &[x, y], 0);
                                }
                            }
                            if pn.k == K::ToBits && self.k(pn.a[0]) == K::FAbs && self.ty(y) == t {
                                return self.mk(K::FCopysign, t, &[pn.a[0], y], 0);
                            }
                        }
                    }
                }
            }
            K::ToBits => {
                let nd = self.n[a[0] as usize].clone();
                let sb = 1u64 << (w - 1);
                match nd.k {
                    K::FAbs => {
                        let b = self.to_bits(nd.a[0]);
                        let c = self.konst(t, ones & !sb);
                        return self.mk(K::And, t, &[b, c], 0);
                    }
                    K::FNeg => {
                        let b = self.to_bits(nd.a[0]);
                        let c = self.konst(t, sb);
                        return self.mk(K::Xor, t, &[b, c], 0);
                    }
                    K::FCopysign => {
                        let b = self.to_bits(nd.a[0]);
                        let c = self.konst(t, ones & !sb);
                        let p = self.mk(K::And, t, &[b, c], 0);
                        let b = self.to_bits(nd.a[1]);
                        let c = self.konst(t, sb);
                        let q = self.mk(K::And, t, &[b, c], 0);
                        return self.mk(K::Or, t, &[p, q], 0);
                    }
                    _ => {}
                }
            }
            K::FAbs | K::FMul if (k == K::FAbs || a[0] == a[1]) && self.k(a[0]) == K::FAdd && self.opposite(a[0]).is_some() => {
                // |a - b| = |b - a|, and the same for squares
                let x = self.opposite(a[0]).unwrap();
                let v = if k == K::FAbs { vec![x] } else { vec![x, x] };
                return self.mk(k, t, &v, 0);
            }
            K::FNeg if self.k(a[0]) == K::FNeg => return self.arg(a[0], 0),
            K::FAbs if matches!(self.k(a[0]), K::FAbs) => return a[0],
            K::FAbs if matches!(self.k(a[0]), K::FNeg | K::FCopysign) => {
                let x = self.arg(a[0], 0);
                return self.mk(K::FAbs, t, &[x], 0);
            }
            K::FCopysign => {
                if matches!(self.k(a[0]), K::FAbs | K::FNeg | K::FCopysign) {
                    let x = self.arg(a[0], 0);
                    return self.mk(K::FCopysign, t, &[x, a[1]], 0);
                }
                if a[0] == a[1] {
                    return a[0];
                }
            }
            K::FAdd => {
                // x + (-0.0) = x
                if c1 == Some(1u64 << (w - 1)) {
                    return a[0];
                }
                // x + 0.0 = x, unless x is -0.0
                if c1 == Some(0) && self.never_neg_zero(a[0], 6) {
                    return a[0];
                }
            }
            K::FMul | K::FDiv => {
                // move signs outward
                for i in 0..2 {
                    if self.k(a[i]) == K::FNeg {
                        let mut x = a.clone();
                        x[i] = self.arg(a[i], 0);
                        let r = self.mk(k, t, &x, 0);
                        return self.mk(K::FNeg, t, &[r], 0);
                    }
                    if let Some(c) = self.cst(a[i]) {
                        let nan = if t == T::F32 { f32b(c).is_nan() } else { f64b(c).is_nan() };
                        if c >> (w - 1) == 1 && !nan {
                            let mut x = a.clone();
                            x[i] = self.konst(t, c ^ (1 << (w - 1)));
                            let r = self.mk(k, t, &x, 0);
                            return self.mk(K::FNeg, t, &[r], 0);
                        }
                    }
                }
                if let Some(c) = c1 {
                    let v = if t == T::F32 { f32b(c) as f64 } else { f64b(c) };
                    if v == 1.0 {
                        return a[0];
                    }
                    if k == K::FDiv && t == T::F32 && v > 1e-30 && v < 1e30 {
                        let (m, _) = ((c & 0x7f_ffff), 0);
                        if m == 0 {
                            let r = self.f32c((1.0 / v) as f32);
                            return self.mk(K::FMul, t, &[a[0], r], 0);
                        }
                    }
                }
            }
            K::FpToSi | K::FpToUi | K::FpTrunc => {}
            _ => {}
        }
        if matches!(k, K::FpTrunc) && self.k(a[0]) == K::FpExt {
            return self.arg(a[0], 0);
        }
        self.intern(k, t, a, imm)
    }
    /// the negation of the sum n (up to the sign of a zero), when that is its preferred form
    fn opposite(&mut self, n: N) -> Option<N> {
        let nd = self.n[n as usize].clone();
        let plain = |d: &Self, x: N| if d.k(x) == K::FNeg { d.arg(x, 0) } else { x };
        let (x, y) = (plain(self, nd.a[0]), plain(self, nd.a[1]));
        let first = match (self.cst(x).is_some(), self.cst(y).is_some()) {
            (false, true) => 0,
            (true, false) => 1,
            (true, true) => return None,
            _ => (y < x) as usize,
        };
        if self.k(nd.a[first]) != K::FNeg {
            return None;
        }
        let x = self.mk(K::FNeg, nd.t, &[nd.a[0]], 0);
        let y = self.mk(K::FNeg, nd.t, &[nd.a[1]], 0);
        Some(self.mk(K::FAdd, nd.t, &[x, y], 0))
    }
    /// n is not -0.0
    fn never_neg_zero(&self, n: N, depth: u32) -> bool {
        let nd = &self.n[n as usize];
        if depth == 0 {
            return false;
        }
        match nd.k {
            K::Const => nd.imm != 1u64 << (nd.t.bits() - 1),
            K::FAbs | K::SiToFp | K::UiToFp => true,
            // both summands would have to be -0.0
            K::FAdd => nd.a.iter().any(|&x| self.never_neg_zero(x, depth - 1)),
            K::FMul | K::FDiv => nd.a[0] == nd.a[1],
            K::FpExt => self.never_neg_zero(nd.a[0], depth - 1),
            K::Ite => nd.a[1..].iter().all(|&x| self.never_neg_zero(x, depth - 1)),
            _ => false,
        }
    }
    /// a constant every value of n is a multiple of
    pub fn multiple_of(&self, n: N) -> u64 {
        let nd = &self.n[n as usize];
        let pow = |x: u64| if x == 0 { 1 << (nd.t.bits() - 1).min(62) } else { 1 << x.trailing_zeros().min(62) };
        match nd.k {
            K::Const => pow(nd.imm),
            // the product may wrap, unless its factor is a power of two or it is narrow
            K::Mul => match self.cst(nd.a[1]) {
                Some(c) if c > 0 && self.narrow(nd.a[0], c) => c,
                Some(c) => pow(c),
                None => 1,
            },
            K::Shl => match self.cst(nd.a[1]) {
                Some(c) => 1 << c.min(62),
                None => 1,
            },
            K::Add | K::Sub => {
                let (a, b) = (self.multiple_of(nd.a[0]), self.multiple_of(nd.a[1]));
                pow(a).min(pow(b))
            }
            _ => 1,
        }
    }
    /// n times c does not wrap
    fn narrow(&self, n: N, c: u64) -> bool {
        let nd = &self.n[n as usize];
        nd.k == K::Zext && (mask(self.ty(nd.a[0]).bits()) as u128) * c as u128 <= mask(nd.t.bits()) as u128
    }
    /// the float of type t with the bits n, when n combines sign bits and the magnitude of floats
    fn sign_magnitude(&mut self, n: N, t: T) -> Option<N> {
        let (m, s, neg) = self.sm(n, t, 8);
        let w = t.bits();
        let r = match m {
            Mag::Bits(i) if i == n => return None,
            Mag::Bits(i) => i,
            Mag::Const(c) => self.konst(T::I(w as u8), c),
            Mag::Other => return None,
        };
        let f = self.of_bits(r, t);
        if s.len() > 1 || s.first() == Some(&n) {
            return None;
        }
        let x = match s.first() {
            None => self.mk(K::FAbs, t, &[f], 0),
            Some(&i) if i == r => f,
            Some(&i) => {
                let y = self.of_bits(i, t);
                let y = if neg { self.mk(K::FNeg, t, &[y], 0) } else { y };
                return Some(self.mk(K::FCopysign, t, &[f, y], 0));
            }
        };
        Some(if neg { self.mk(K::FNeg, t, &[x], 0) } else { x })
    }
    /// magnitude bits, and the sign bit as a sum modulo 2 of the signs of floats and a constant
    fn sm(&self, n: N, t: T, depth: u32) -> (Mag, Vec<N>, bool) {
        let nd = &self.n[n as usize];
        let w = t.bits();
        let low = mask(w - 1);
        let leaf = (Mag::Bits(n), vec![n], false);
        match nd.k {
            K::Const => (Mag::Const(nd.imm & low), vec![], nd.imm >> (w - 1) == 1),
            K::And | K::Or | K::Xor if depth > 0 => {
                let (m0, s0, c0) = self.sm(nd.a[0], t, depth - 1);
                let (m1, s1, c1) = self.sm(nd.a[1], t, depth - 1);
                let unit = if nd.k == K::And { low } else { 0 };
                let sc = |s: &Vec<N>, c: bool| if s.is_empty() { Some(c) } else { None };
                let m = if m0 == Mag::Const(unit) {
                    m1
                } else if m1 == Mag::Const(unit) {
                    m0
                } else {
                    match (nd.k, m0, m1) {
                        (K::And, Mag::Const(0), _) | (K::And, _, Mag::Const(0)) => Mag::Const(0),
                        (K::Or, Mag::Const(x), _) | (K::Or, _, Mag::Const(x)) if x == low => Mag::Const(low),
                        (K::And, Mag::Const(x), Mag::Const(y)) => Mag::Const(x & y),
                        (K::Or, Mag::Const(x), Mag::Const(y)) => Mag::Const(x | y),
                        (K::Xor, Mag::Const(x), Mag::Const(y)) => Mag::Const(x ^ y),
                        (K::Xor, Mag::Bits(x), Mag::Bits(y)) if x == y => Mag::Const(0),
                        (K::And | K::Or, Mag::Bits(x), Mag::Bits(y)) if x == y => Mag::Bits(x),
                        _ => Mag::Other,
                    }
                };
                let (s, c) = match nd.k {
                    K::Xor => {
                        let mut s: Vec<N> = s0.iter().filter(|x| !s1.contains(x)).copied().collect();
                        s.extend(s1.iter().filter(|x| !s0.contains(x)));
                        (s, c0 ^ c1)
                    }
                    k => {
                        let and = k == K::And;
                        match (sc(&s0, c0), sc(&s1, c1)) {
                            (Some(x), _) if x == and => (s1, c1),
                            (_, Some(x)) if x == and => (s0, c0),
                            (Some(x), _) | (_, Some(x)) => (vec![], x),
                            _ if s0 == s1 && c0 == c1 => (s0, c0),
                            _ => return leaf,
                        }
                    }
                };
                (m, s, c)
            }
            _ => leaf,
        }
    }
    /// the float whose sign bit the condition tests (true: negative, false: positive)
    fn sign_test(&self, c: N) -> Option<(N, bool)> {
        let nd = &self.n[c as usize];
        if let Some(x) = self.is_not(c) {
            return self.sign_test(x).map(|(f, b)| (f, !b));
        }
        let bits = |n: N| if self.k(n) == K::ToBits { Some(self.arg(n, 0)) } else { None };
        match nd.k {
            K::Slt if self.cst(nd.a[1]) == Some(0) => bits(nd.a[0]).map(|f| (f, true)),
            K::Slt if self.cst(nd.a[0]) == Some(mask(self.ty(nd.a[1]).bits())) => bits(nd.a[1]).map(|f| (f, false)),
            K::Eq => {
                let x = &self.n[nd.a[0] as usize];
                let sb = 1u64 << (x.t.bits().max(2) - 1);
                let v = self.cst(nd.a[1])?;
                match x.k {
                    K::And if self.cst(x.a[1]) == Some(sb) && (v == 0 || v == sb) => bits(x.a[0]).map(|f| (f, v == sb)),
                    K::LShr if self.cst(x.a[1]) == Some(x.t.bits() as u64 - 1) && v < 2 => bits(x.a[0]).map(|f| (f, v == 1)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// if-then-else tree whose leaves are constants
    fn ite_const(&self, n: N, depth: u32) -> bool {
        let nd = &self.n[n as usize];
        match nd.k {
            K::Const => true,
            K::Ite if depth > 0 => self.ite_const(nd.a[1], depth - 1) && self.ite_const(nd.a[2], depth - 1),
            _ => false,
        }
    }
    /// concrete evaluation of all nodes (None for calls without an evaluator)
    pub fn eval(&self, roots: &[N], env: &[u64], call: &dyn Fn(&str, &[u64]) -> Option<u64>) -> Vec<Option<u64>> {
        let mut v: Vec<Option<u64>> = vec![None; self.n.len()];
        let top = roots.iter().copied().max().map(|x| x as usize + 1).unwrap_or(0);
        for i in 0..top {
            let nd = &self.n[i];
            v[i] = match nd.k {
                K::Const => Some(nd.imm),
                K::Var => env.get(nd.imm as usize).copied(),
                K::Ite => match v[nd.a[0] as usize] {
                    Some(1) => v[nd.a[1] as usize],
                    Some(_) => v[nd.a[2] as usize],
                    None => None,
                },
                K::Call => {
                    let a: Option<Vec<u64>> = nd.a.iter().map(|&x| v[x as usize]).collect();
                    a.and_then(|a| call(&self.calls[nd.imm as usize], &a))
                }
                _ => {
                    let a: Option<Vec<u64>> = nd.a.iter().map(|&x| v[x as usize]).collect();
                    let ts: Vec<T> = nd.a.iter().map(|&x| self.n[x as usize].t).collect();
                    a.and_then(|a| eval_op(nd.k, nd.t, nd.imm, &ts, &a))
                }
            };
        }
        v
    }
    pub fn show(&self, n: N, depth: u32) -> String {
        let nd = &self.n[n as usize];
        match nd.k {
            K::Const => match nd.t {
                T::F32 => format!("{:?}f", f32b(nd.imm)),
                T::F64 => format!("{:?}", f64b(nd.imm)),
                T::I(_) => format!("{:#x}", nd.imm),
            },
            K::Var => self.vars[nd.imm as usize].0.clone(),
            _ if depth == 0 => format!("n{}", n),
            _ => {
                let a: Vec<String> = nd.a.iter().map(|&x| self.show(x, depth - 1)).collect();
                let nm = if nd.k == K::Call { self.calls[nd.imm as usize].clone() } else { format!("{:?}", nd.k) };
                format!("{}({})", nm, a.join(", "))
            }
        }
    }
}
