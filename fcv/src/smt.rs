//! SMT-LIB back end. Level 1: exact IEEE semantics (QF_BVFP). Level 0: floating-point
//! arithmetic as uninterpreted functions over bit patterns with sound axiom instances.
use crate::dag::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Unsat,
    Sat(Vec<u64>),
    Unknown(String),
}

fn bvlit(v: u64, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

fn reach(d: &Dag, roots: &[N]) -> Vec<N> {
    let mut seen = HashSet::new();
    let mut st: Vec<N> = roots.to_vec();
    while let Some(x) = st.pop() {
        if seen.insert(x) {
            st.extend(d.n[x as usize].a.iter().copied());
        }
    }
    let mut v: Vec<N> = seen.into_iter().collect();
    v.sort();
    v
}

struct E<'a> {
    d: &'a Dag,
    level: u8,
    /// interpret products of two terms
    products: bool,
    out: String,
    decl: HashSet<String>,
}

impl<'a> E<'a> {
    fn sort(&self, t: T) -> String {
        match (t, self.level) {
            (T::I(1), _) => "Bool".into(),
            (T::I(w), _) => format!("(_ BitVec {})", w),
            (T::F32, 0) => "(_ BitVec 32)".into(),
            (T::F64, 0) => "(_ BitVec 64)".into(),
            (T::F32, _) => "(_ FloatingPoint 8 24)".into(),
            (T::F64, _) => "(_ FloatingPoint 11 53)".into(),
        }
    }
    fn tofp(t: T) -> &'static str {
        if t == T::F32 {
            "(_ to_fp 8 24)"
        } else {
            "(_ to_fp 11 53)"
        }
    }
    /// a bit-vector view of an integer node
    fn bv(&self, n: N) -> String {
        if self.d.ty(n) == T::I(1) {
            format!("(ite n{} #b1 #b0)", n)
        } else {
            format!("n{}", n)
        }
    }
    fn declare(&mut self, name: &str, args: &[String], ret: &str) {
        if self.decl.insert(name.to_string()) {
            let _ = writeln!(self.out, "(declare-fun {} ({}) {})", name, args.join(" "), ret);
        }
    }
    fn nanbits(x: &str, t: T) -> String {
        if t == T::F32 {
            format!("(bvugt (bvand {} #x7fffffff) #x7f800000)", x)
        } else {
            format!("(bvugt (bvand {} #x7fffffffffffffff) #x7ff0000000000000)", x)
        }
    }
    fn emit(&mut self, nodes: &[N]) -> Result<(), String> {
        for &n in nodes {
            let nd = self.d.n[n as usize].clone();
            let s = self.sort(nd.t);
            let w = nd.t.bits();
            let a: Vec<String> = nd.a.iter().map(|x| format!("n{}", x)).collect();
            let at = nd.a.first().map(|&x| self.d.ty(x)).unwrap_or(T::I(1));
            let bools = nd.t == T::I(1);
            let expr: String = match nd.k {
                K::Const => match nd.t {
                    T::I(1) => (if nd.imm == 1 { "true" } else { "false" }).into(),
                    T::I(_) => bvlit(nd.imm, w),
                    t if self.level == 0 => bvlit(nd.imm, t.bits()),
                    t => {
                        let nan = if t == T::F32 {
                            f32::from_bits(nd.imm as u32).is_nan()
                        } else {
                            f64::from_bits(nd.imm).is_nan()
                        };
                        if nan {
                            if t == T::F32 { "(_ NaN 8 24)".into() } else { "(_ NaN 11 53)".into() }
                        } else {
                            format!("({} {})", Self::tofp(t), bvlit(nd.imm, w))
                        }
                    }
                },
                K::Var => {
                    let nm = format!("v{}", nd.imm);
                    let vs = if nd.t == T::I(1) { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
                    self.declare(&nm, &[], &vs);
                    if nd.t.is_f() && self.level > 0 {
                        format!("({} {})", Self::tofp(nd.t), nm)
                    } else {
                        nm
                    }
                }
                K::And | K::Or | K::Xor if bools => {
                    format!("({} {} {})", match nd.k { K::And => "and", K::Or => "or", _ => "xor" }, a[0], a[1])
                }
                K::Mul if !self.products && product(self.d, n) => {
                    let f = format!("prod_{}", w);
                    self.declare(&f, &[s.clone(), s.clone()], &s);
                    format!("({} {} {})", f, a[0], a[1])
                }
                K::Add | K::Sub | K::Mul | K::UDiv | K::SDiv | K::URem | K::SRem | K::And | K::Or | K::Xor | K::Shl
                | K::LShr | K::AShr => {
                    let op = match nd.k {
                        K::Add => "bvadd",
                        K::Sub => "bvsub",
                        K::Mul => "bvmul",
                        K::UDiv => "bvudiv",
                        K::SDiv => "bvsdiv",
                        K::URem => "bvurem",
                        K::SRem => "bvsrem",
                        K::And => "bvand",
                        K::Or => "bvor",
                        K::Xor => "bvxor",
                        K::Shl => "bvshl",
                        K::LShr => "bvlshr",
                        _ => "bvashr",
                    };
                    let e = format!("({} {} {})", op, self.bv(nd.a[0]), self.bv(nd.a[1]));
                    if bools {
                        format!("(= {} #b1)", e)
                    } else {
                        e
                    }
                }
                K::Eq => format!("(= {} {})", a[0], a[1]),
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let op = match nd.k {
                        K::Ult => "bvult",
                        K::Ule => "bvule",
                        K::Slt => "bvslt",
                        _ => "bvsle",
                    };
                    format!("({} {} {})", op, self.bv(nd.a[0]), self.bv(nd.a[1]))
                }
                K::Zext => format!("((_ zero_extend {}) {})", w - at.bits(), self.bv(nd.a[0])),
                K::Sext => format!("((_ sign_extend {}) {})", w - at.bits(), self.bv(nd.a[0])),
                K::Extract => {
                    let e = format!("((_ extract {} {}) {})", nd.imm + w as u64 - 1, nd.imm, self.bv(nd.a[0]));
                    if bools {
                        format!("(= {} #b1)", e)
                    } else {
                        e
                    }
                }
                K::Concat => format!("(concat {} {})", self.bv(nd.a[0]), self.bv(nd.a[1])),
                K::Ctlz | K::Cttz => {
                    let mut e = bvlit(w as u64, w);
                    // innermost: no bit set
                    for i in 0..w {
                        let (bit, cnt) = if nd.k == K::Ctlz { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                        e = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", bit, bit, a[0], bvlit(cnt as u64, w), e);
                    }
                    e
                }
                K::Ctpop => {
                    let mut e = bvlit(0, w);
                    for i in 0..w {
                        e = format!("(bvadd {} ((_ zero_extend {}) ((_ extract {} {}) {})))", e, w - 1, i, i, a[0]);
                    }
                    e
                }
                K::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]),
                K::Call => {
                    let name = self.d.calls[nd.imm as usize].clone();
                    let rm = match name.as_str() {
                        "math_floor" | "ref_floorf" => Some("RTN"),
                        "math_ceil" | "ref_ceilf" => Some("RTP"),
                        "math_trunc" | "ref_truncf" => Some("RTZ"),
                        "math_round" | "ref_roundf" => Some("RNA"),
                        _ => None,
                    };
                    match (rm, self.level) {
                        (Some(m), 1) => format!("(fp.roundToIntegral {} {})", m, a[0]),
                        _ => {
                            let ss: Vec<String> = nd.a.iter().map(|&x| self.sort(self.d.ty(x))).collect();
                            let f = format!("uf_{}", name);
                            self.declare(&f, &ss, &s);
                            format!("({} {})", f, a.join(" "))
                        }
                    }
                }
                _ if self.level == 0 => {
                    let (sb, t) = (1u64 << (if nd.t.is_f() { w - 1 } else { 31 }), nd.t);
                    match nd.k {
                        K::ToBits | K::OfBits => a[0].clone(),
                        K::FNeg => format!("(bvxor {} {})", a[0], bvlit(sb, w)),
                        K::FAbs => format!("(bvand {} {})", a[0], bvlit(mask(w) & !sb, w)),
                        K::FCopysign => format!(
                            "(bvor (bvand {} {}) (bvand {} {}))",
                            a[0],
                            bvlit(mask(w) & !sb, w),
                            a[1],
                            bvlit(sb, w)
                        ),
                        K::FOeq | K::FOlt | K::FOle => {
                            let aw = at.bits();
                            let m = bvlit(mask(aw - 1), aw);
                            let z = bvlit(0, aw);
                            let ord = format!("(not {}) (not {})", Self::nanbits(&a[0], at), Self::nanbits(&a[1], at));
                            let bz = format!("(= (bvand (bvor {} {}) {}) {})", a[0], a[1], m, z);
                            match nd.k {
                                K::FOeq => format!("(and {} (or (= {} {}) {}))", ord, a[0], a[1], bz),
                                _ => {
                                    // sign-magnitude comparison
                                    let lt = format!(
                                        "(ite (bvslt {a} {z}) (ite (bvslt {b} {z}) (bvult {b} {a}) true) (ite (bvslt {b} {z}) false (bvult {a} {b})))",
                                        a = a[0],
                                        b = a[1],
                                        z = z
                                    );
                                    if nd.k == K::FOlt {
                                        format!("(and {} (not {}) {})", ord, bz, lt)
                                    } else {
                                        format!("(and {} (or {} (= {} {}) {}))", ord, bz, a[0], a[1], lt)
                                    }
                                }
                            }
                        }
                        _ => {
                            let f = format!("f_{:?}_{}_{}", nd.k, at.bits(), w);
                            let ss: Vec<String> = nd.a.iter().map(|&x| self.sort(self.d.ty(x))).collect();
                            self.declare(&f, &ss, &s);
                            let e = format!("({} {})", f, a.join(" "));
                            let _ = writeln!(self.out, "(define-fun n{} () {} {})", n, s, e);
                            self.axioms(n, &nd, &a, t);
                            continue;
                        }
                    }
                }
                K::FAdd => format!("(fp.add RNE {} {})", a[0], a[1]),
                K::FMul => format!("(fp.mul RNE {} {})", a[0], a[1]),
                K::FDiv => format!("(fp.div RNE {} {})", a[0], a[1]),
                K::FSqrt => format!("(fp.sqrt RNE {})", a[0]),
                K::FRem => {
                    let f = format!("frem{}", w);
                    self.declare(&f, &[s.clone(), s.clone()], &s);
                    let _ = writeln!(self.out, "(define-fun n{} () {} ({} {} {}))", n, s, f, a[0], a[1]);
                    let (x, y, r) = (self.bits_of(nd.a[0]), self.bits_of(nd.a[1]), self.bits_of(n));
                    for q in Self::frem_axioms(w, &r, &x, &y) {
                        let _ = writeln!(self.out, "(assert {})", q);
                    }
                    continue;
                }
                K::FNeg => format!("(fp.neg {})", a[0]),
                K::FAbs => format!("(fp.abs {})", a[0]),
                K::FCopysign => {
                    // sign of the second operand through its bits
                    let b = self.bits_of(nd.a[1]);
                    format!(
                        "(ite (= ((_ extract {} {}) {}) #b1) (fp.neg (fp.abs {})) (fp.abs {}))",
                        w - 1,
                        w - 1,
                        b,
                        a[0],
                        a[0]
                    )
                }
                K::FOeq => format!("(fp.eq {} {})", a[0], a[1]),
                K::FOlt => format!("(fp.lt {} {})", a[0], a[1]),
                K::FOle => format!("(fp.leq {} {})", a[0], a[1]),
                K::ToBits => self.bits_of(nd.a[0]),
                K::OfBits => format!("({} {})", Self::tofp(nd.t), a[0]),
                K::SiToFp => format!("({} RNE {})", Self::tofp(nd.t), self.bv(nd.a[0])),
                K::UiToFp => {
                    let f = if nd.t == T::F32 { "(_ to_fp_unsigned 8 24)" } else { "(_ to_fp_unsigned 11 53)" };
                    format!("({} RNE {})", f, self.bv(nd.a[0]))
                }
                K::FpExt | K::FpTrunc => format!("({} RNE {})", Self::tofp(nd.t), a[0]),
                K::FpToSi | K::FpToUi => {
                    let signed = nd.k == K::FpToSi;
                    let (lo, hi) = if signed {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1))
                    } else {
                        (-1.0, 2f64.powi(w as i32))
                    };
                    let (l, h) = if at == T::F32 {
                        (bvlit((lo as f32).to_bits() as u64, 32), bvlit((hi as f32).to_bits() as u64, 32))
                    } else {
                        (bvlit(lo.to_bits(), 64), bvlit(hi.to_bits(), 64))
                    };
                    let (mn, mx) = if signed { (1u64 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                    let tf = Self::tofp(at);
                    format!(
                        "(ite (fp.isNaN {x}) {z} (ite (fp.geq {x} ({tf} {h})) {mx} (ite (fp.leq {x} ({tf} {l})) {mn} ((_ {op} {w}) RTZ {x}))))",
                        x = a[0],
                        z = bvlit(0, w),
                        tf = tf,
                        h = h,
                        l = l,
                        mx = bvlit(mx, w),
                        mn = bvlit(mn, w),
                        op = if signed { "fp.to_sbv" } else { "fp.to_ubv" },
                        w = w
                    )
                }
            };
            let _ = writeln!(self.out, "(define-fun n{} () {} {})", n, s, expr);
        }
        Ok(())
    }
    /// bits of a float node (exact theory)
    fn bits_of(&mut self, n: N) -> String {
        let nd = &self.d.n[n as usize];
        let w = nd.t.bits();
        if nd.k == K::Var {
            return format!("v{}", nd.imm);
        }
        if nd.k == K::OfBits {
            return format!("n{}", nd.a[0]);
        }
        if nd.k == K::Const {
            return bvlit(nd.imm, w);
        }
        let nm = format!("b{}", n);
        if self.decl.insert(nm.clone()) {
            let _ = writeln!(self.out, "(declare-fun {} () (_ BitVec {}))", nm, w);
            let _ = writeln!(self.out, "(assert (= ({} {}) n{}))", Self::tofp(nd.t), nm, n);
        }
        nm
    }
    /// facts about the truncated remainder r of x by y, over their bits
    fn frem_axioms(w: u32, r: &str, x: &str, y: &str) -> Vec<String> {
        let t = if w == 32 { T::F32 } else { T::F64 };
        let nan = |x: &str| Self::nanbits(x, t);
        let abs = |x: &str| format!("(bvand {} {})", x, bvlit(mask(w - 1), w));
        let infb = bvlit(if w == 32 { 0x7f800000 } else { 0x7ff0 << 48 }, w);
        let inf = |x: &str| format!("(= {} {})", abs(x), infb);
        let zero = |x: &str| format!("(= {} {})", abs(x), bvlit(0, w));
        vec![
            format!("(= {} (or {} {} {} {}))", nan(r), nan(x), nan(y), inf(x), zero(y)),
            format!("(=> (not {}) (bvult {} {}))", nan(r), abs(r), abs(y)),
            format!("(=> (not {}) (bvule {} {}))", nan(r), abs(r), abs(x)),
            format!("(=> (not {}) (= (bvslt {} {z}) (bvslt {} {z})))", nan(r), r, x, z = bvlit(0, w)),
            format!("(=> (and (not {}) (bvult {} {})) (= {} {}))", nan(r), abs(x), abs(y), r, x),
        ]
    }
    fn axioms(&mut self, n: N, nd: &Node, a: &[String], t: T) {
        let mut ax: Vec<String> = vec![];
        let me = format!("n{}", n);
        let w = t.bits();
        let nan = |x: &str, t: T| Self::nanbits(x, t);
        let at: Vec<T> = nd.a.iter().map(|&x| self.d.ty(x)).collect();
        if t.is_f() && at.iter().all(|t| t.is_f()) {
            // NaN operands give NaN
            for (x, t2) in a.iter().zip(&at) {
                ax.push(format!("(=> {} {})", nan(x, *t2), nan(&me, t)));
            }
        }
        let sgn = |x: &str| format!("(bvslt {} {})", x, bvlit(0, w));
        let inf = |x: &str| {
            format!("(= (bvand {} {}) {})", x, bvlit(mask(w - 1), w), bvlit(if w == 32 { 0x7f800000 } else { 0x7ff0 << 48 }, w))
        };
        let zero = |x: &str| format!("(= (bvand {} {}) {})", x, bvlit(mask(w - 1), w), bvlit(0, w));
        match nd.k {
            K::FMul => {
                // sign rule, and when the result is not a number
                ax.push(format!("(or {} (= {} (xor {} {})))", nan(&me, t), sgn(&me), sgn(&a[0]), sgn(&a[1])));
                ax.push(format!(
                    "(= {} (or {} {} (and {} {}) (and {} {})))",
                    nan(&me, t),
                    nan(&a[0], t),
                    nan(&a[1], t),
                    inf(&a[0]),
                    zero(&a[1]),
                    zero(&a[0]),
                    inf(&a[1])
                ));
                for i in 0..2 {
                    ax.push(format!("(=> (and {} (not {})) {})", zero(&a[i]), nan(&me, t), zero(&me)));
                    ax.push(format!("(=> (and {} (not {})) {})", inf(&a[i]), nan(&me, t), inf(&me)));
                }
            }
            K::FDiv => {
                ax.push(format!("(or {} (= {} (xor {} {})))", nan(&me, t), sgn(&me), sgn(&a[0]), sgn(&a[1])));
                ax.push(format!(
                    "(= {} (or {} {} (and {} {}) (and {} {})))",
                    nan(&me, t),
                    nan(&a[0], t),
                    nan(&a[1], t),
                    inf(&a[0]),
                    inf(&a[1]),
                    zero(&a[0]),
                    zero(&a[1])
                ));
                ax.push(format!("(=> (and {} (not {})) {})", zero(&a[0]), nan(&me, t), zero(&me)));
                ax.push(format!("(=> (and {} (not {})) {})", inf(&a[1]), nan(&me, t), zero(&me)));
                ax.push(format!("(=> (and {} (not {})) {})", inf(&a[0]), nan(&me, t), inf(&me)));
                ax.push(format!("(=> (and {} (not {})) {})", zero(&a[1]), nan(&me, t), inf(&me)));
            }
            K::FAdd => {
                ax.push(format!(
                    "(= {} (or {} {} (and {} {} (xor {} {}))))",
                    nan(&me, t),
                    nan(&a[0], t),
                    nan(&a[1], t),
                    inf(&a[0]),
                    inf(&a[1]),
                    sgn(&a[0]),
                    sgn(&a[1])
                ));
                ax.push(format!("(=> (and (not {}) (= {} {})) (= {} {}))", nan(&me, t), sgn(&a[0]), sgn(&a[1]), sgn(&me), sgn(&a[0])));
                for i in 0..2 {
                    ax.push(format!("(=> (and {} (not {})) (= {} {}))", inf(&a[i]), nan(&me, t), me, a[i]));
                    ax.push(format!("(=> (and {} (not {}) (not {})) (= {} {}))", zero(&a[i]), zero(&a[1 - i]), nan(&me, t), me, a[1 - i]));
                }
            }
            K::FRem => {
                ax.extend(Self::frem_axioms(w, &me, &a[0], &a[1]));
            }
            K::FpExt => {
                let (x, mw) = (&a[0], bvlit(mask(w - 1), w));
                ax.push(format!("(= {} {})", nan(&me, t), nan(x, at[0])));
                ax.push(format!("(= (= (bvand {} {}) {}) (= (bvand {} #x7fffffff) #x00000000))", me, mw, bvlit(0, w), x));
                ax.push(format!("(or {} (= {} (bvslt {} #x00000000)))", nan(&me, t), sgn(&me), x));
                ax.push(format!("(= {} (= (bvand {} #x7fffffff) #x7f800000))", inf(&me), x));
            }
            K::SiToFp | K::UiToFp => {
                ax.push(format!("(not {})", nan(&me, t)));
            }
            _ => {}
        }
        for x in ax {
            let _ = writeln!(self.out, "(assert {})", x);
        }
    }
}

fn product(d: &Dag, n: N) -> bool {
    let nd = &d.n[n as usize];
    nd.k == K::Mul && nd.t.bits() >= 16 && nd.a.iter().all(|&x| d.cst(x).is_none())
}
pub fn has_products(d: &Dag, goal: N) -> bool {
    reach(d, &[goal]).iter().any(|&n| product(d, n))
}

/// as `script` at level 0, for the last `k` conditions only; None when there are no more than that
pub fn weakened(d: &Dag, conj: &[N], k: usize) -> Option<String> {
    if conj.len() <= k {
        return None;
    }
    let last = conj[conj.len() - k..].to_vec();
    let mut e = E { d, level: 0, products: true, out: String::new(), decl: HashSet::new() };
    e.out.push_str("(set-logic ALL)\n");
    let nodes = reach(d, &last);
    e.emit(&nodes).ok()?;
    for n in last {
        let _ = writeln!(e.out, "(assert n{})", n);
    }
    e.out.push_str("(check-sat)\n");
    Some(e.out)
}

/// SMT-LIB text deciding whether `goal` (a boolean) can be true
pub fn script(d: &Dag, goal: N, level: u8, extra: &str) -> Result<(String, Vec<usize>), String> {
    let mut e = E { d, level: level & 1, products: level != 2, out: String::new(), decl: HashSet::new() };
    e.out.push_str("(set-logic ALL)\n(set-option :produce-models true)\n");
    let nodes = reach(d, &[goal]);
    e.emit(&nodes)?;
    let mut vars: Vec<usize> =
        nodes.iter().filter(|&&n| d.k(n) == K::Var).map(|&n| d.n[n as usize].imm as usize).collect();
    vars.sort();
    let _ = writeln!(e.out, "{}(assert n{})\n(check-sat)", extra, goal);
    if !vars.is_empty() {
        let vs: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        let _ = writeln!(e.out, "(get-value ({}))", vs.join(" "));
    }
    Ok((e.out, vars))
}

fn parse_model(out: &str, vars: &[usize], nvars: usize) -> Option<Vec<u64>> {
    let mut m: HashMap<usize, u64> = HashMap::new();
    let t: String = out.chars().map(|c| if c == '(' || c == ')' { ' ' } else { c }).collect();
    let w: Vec<&str> = t.split_whitespace().collect();
    let mut i = 0;
    while i + 1 < w.len() {
        if let Some(k) = w[i].strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
            let v = w[i + 1];
            let x = if let Some(h) = v.strip_prefix("#x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(b) = v.strip_prefix("#b") {
                u64::from_str_radix(b, 2).ok()
            } else if v == "true" {
                Some(1)
            } else if v == "false" {
                Some(0)
            } else if v == "_" && i + 2 < w.len() && w[i + 2].starts_with("bv") {
                w[i + 2][2..].parse().ok()
            } else {
                None
            };
            if let Some(x) = x {
                m.insert(k, x);
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    if vars.iter().all(|v| m.contains_key(v)) {
        Some((0..nvars).map(|i| m.get(&i).copied().unwrap_or(0)).collect())
    } else {
        None
    }
}

fn limit_mem(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    unsafe {
        c.pre_exec(|| {
            let l = [3_000_000_000u64; 2];
            setrlimit(9, &l);
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
}

/// run a portfolio of solvers on one script; the first definite answer counts
pub fn solve(text: &str, vars: &[usize], nvars: usize, file: &str, timeout: f64, solvers: &[&str]) -> (Ans, String, f64) {
    let t0 = Instant::now();
    if std::fs::write(file, text).is_err() {
        return (Ans::Unknown("cannot write script".into()), String::new(), 0.0);
    }
    let mut kids: Vec<(String, Child)> = vec![];
    for s in solvers {
        let mut c = Command::new(s);
        if s.contains("cvc5") {
            c.arg("--fp-exp").arg("--produce-models").arg(format!("--tlimit={}", (timeout * 1000.0) as u64));
        } else {
            c.arg(format!("-T:{}", timeout.ceil() as u64));
        }
        c.arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
        limit_mem(&mut c);
        if let Ok(k) = c.spawn() {
            kids.push((s.to_string(), k));
        }
    }
    let mut res = (Ans::Unknown("no answer".into()), String::new());
    let mut done = vec![false; kids.len()];
    'l: loop {
        for i in 0..kids.len() {
            if done[i] {
                continue;
            }
            if let Ok(Some(_)) = kids[i].1.try_wait() {
                done[i] = true;
                let mut o = String::new();
                if let Some(mut p) = kids[i].1.stdout.take() {
                    let _ = p.read_to_string(&mut o);
                }
                let f = o.trim_start();
                if f.starts_with("unsat") {
                    res = (Ans::Unsat, kids[i].0.clone());
                    break 'l;
                }
                if f.starts_with("sat") {
                    match parse_model(&f[3..], vars, nvars) {
                        Some(m) => res = (Ans::Sat(m), kids[i].0.clone()),
                        None => res = (Ans::Sat(vec![]), kids[i].0.clone()),
                    }
                    break 'l;
                }
                res.0 = Ans::Unknown(o.lines().next().unwrap_or("").chars().take(200).collect());
            }
        }
        if done.iter().all(|x| *x) || t0.elapsed().as_secs_f64() > timeout + 2.0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (_, k) in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    (res.0, res.1, t0.elapsed().as_secs_f64())
}
