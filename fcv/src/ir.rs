//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two(),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for t in ts {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            Ty::Struct(ts, packed) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(ts, _) => ts[i].clone(),
            _ => Ty::Void,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            Ty::Struct(ts, _) => ts.len(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(Rc<str>),
    Glob(Rc<str>),
    Int(i128),
    F32(u32),
    F64(u64),
    Undef,
    Zero,
    Agg(Vec<(Ty, Op)>),
    Str(Vec<u8>),
    Gep(Box<(Ty, Op)>, Ty, Vec<(Ty, Op)>),
    Cast(Box<(Ty, Op)>, Ty),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca(Ty, u64),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Bin(String, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(String, Ty, Op, Op),
    FCmp(String, Ty, Op, Op),
    Cast(String, Ty, Op, Ty),
    Select(Op, Ty, Op, Op),
    Phi(Ty, Vec<(Op, Rc<str>)>),
    Call(Ty, Op, Vec<(Ty, Op)>),
    Extract(Ty, Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    Freeze(Ty, Op),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Ret(Ty, Option<Op>),
    Br(Rc<str>),
    CondBr(Op, Rc<str>, Rc<str>),
    Switch(Ty, Op, Rc<str>, Vec<(Op, Rc<str>)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: Rc<str>,
    pub ins: Vec<(Option<Rc<str>>, Ins)>,
    pub term: Term,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, Rc<str>)>,
    pub blocks: Vec<Block>,
    pub index: HashMap<Rc<str>, usize>,
    pub pretty: String,
    pub module: usize,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub ret: Ty,
    pub params: Vec<Ty>,
    pub noreturn: bool,
}

#[derive(Default)]
pub struct Module {
    pub funcs: HashMap<String, Rc<Func>>,
    pub decls: HashMap<String, Decl>,
    /// value: type, initialiser, module; private names are prefixed with "module:"
    pub globals: HashMap<String, (Ty, Op, usize)>,
    pub nmod: usize,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),     // word / number
    L(String),     // %local
    G(String),     // @global
    S(Vec<u8>),    // c"string"
    Q(String),     // "quoted"
    M,             // metadata (!...)
    A(String),     // #n attribute
    P(char),
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("00");
            o.push(u8::from_str_radix(h, 16).unwrap_or(0));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn lex(s: &str) -> Vec<Tok> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let isw = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-';
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == ';' {
            break;
        }
        if c == '%' || c == '@' {
            let mut n = String::new();
            i += 1;
            if i < b.len() && b[i] == '"' {
                i += 1;
                while i < b.len() && b[i] != '"' {
                    n.push(b[i]);
                    i += 1;
                }
                i += 1;
            } else {
                while i < b.len() && isw(b[i]) {
                    n.push(b[i]);
                    i += 1;
                }
            }
            out.push(if c == '%' { Tok::L(n) } else { Tok::G(n) });
            continue;
        }
        if c == '"' || (c == 'c' && i + 1 < b.len() && b[i + 1] == '"') {
            let q = c == '"';
            if !q {
                i += 1;
            }
            i += 1;
            let mut n = String::new();
            while i < b.len() && b[i] != '"' {
                n.push(b[i]);
                i += 1;
            }
            i += 1;
            out.push(if q { Tok::Q(n) } else { Tok::S(unescape(&n)) });
            continue;
        }
        if c == '!' {
            i += 1;
            while i < b.len() && isw(b[i]) {
                i += 1;
            }
            out.push(Tok::M);
            continue;
        }
        if c == '#' {
            let mut n = String::new();
            i += 1;
            while i < b.len() && isw(b[i]) {
                n.push(b[i]);
                i += 1;
            }
            out.push(Tok::A(n));
            continue;
        }
        if isw(c) || c == '+' {
            let mut n = String::new();
            while i < b.len() && (isw(b[i]) || b[i] == '+') {
                n.push(b[i]);
                i += 1;
            }
            out.push(Tok::W(n));
            continue;
        }
        out.push(Tok::P(c));
        i += 1;
    }
    out
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Option<&'a Tok> {
        let r = self.t.get(self.i);
        self.i += 1;
        r
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c, &self.t[self.i.min(self.t.len())..]))
        }
    }
    fn word(&self) -> &str {
        match self.peek() {
            Some(Tok::W(w)) => w,
            _ => "",
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Some(Tok::W(w)) => match w.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => Ty::Ptr,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                w => Ty::Other(w.to_string()),
            },
            Some(Tok::P('[')) => {
                let n = self.num()?;
                if !self.eatw("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Array(n as u64, Rc::new(t))
            }
            Some(Tok::P('{')) => {
                let v = self.tys('}')?;
                Ty::Struct(v, false)
            }
            Some(Tok::P('<')) => {
                if self.eat('{') {
                    let v = self.tys('}')?;
                    self.exp('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vector(n as u64, Rc::new(t))
                }
            }
            Some(Tok::L(n)) => self.types.get(n).cloned().unwrap_or(Ty::Other(n.clone())),
            x => return Err(format!("type? {:?}", x)),
        };
        Ok(t)
    }
    fn tys(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next() {
            Some(Tok::W(w)) => w.parse::<i128>().map_err(|_| format!("num {}", w)),
            x => Err(format!("num? {:?}", x)),
        }
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    match w.as_str() {
                        "align" | "noundef" | "nonnull" | "zeroext" | "signext" | "readonly" | "readnone"
                        | "writeonly" | "noalias" | "nocapture" | "nofree" | "immarg" | "returned" | "inreg"
                        | "dead_on_unwind" | "writable" | "allocptr" | "nofpclass" | "captures"
                        | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range"
                        | "initializes" | "nest" | "dead_on_return" => {
                            self.i += 1;
                            if self.is('(') {
                                self.skip_paren();
                            } else if w == "align" {
                                self.i += 1;
                            }
                        }
                        _ => return,
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        while let Some(t) = self.next() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        Ok(match self.next() {
            Some(Tok::L(n)) => Op::Reg(n.as_str().into()),
            Some(Tok::G(n)) => Op::Glob(n.as_str().into()),
            Some(Tok::S(s)) => Op::Str(s.clone()),
            Some(Tok::P('{')) => {
                let v = self.aggs('}')?;
                Op::Agg(v)
            }
            Some(Tok::P('[')) => {
                let v = self.aggs(']')?;
                Op::Agg(v)
            }
            Some(Tok::P('<')) => {
                if self.eat('{') {
                    let v = self.aggs('}')?;
                    self.exp('>')?;
                    Op::Agg(v)
                } else {
                    let v = self.aggs('>')?;
                    Op::Agg(v)
                }
            }
            Some(Tok::W(w)) => match w.as_str() {
                "true" => Op::Int(1),
                "false" => Op::Int(0),
                "null" => Op::Int(0),
                "undef" | "poison" => Op::Undef,
                "zeroinitializer" | "none" => Op::Zero,
                "getelementptr" => {
                    while matches!(self.word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                        self.i += 1;
                        if self.is('(') && self.t.get(self.i + 1).map_or(false, |t| matches!(t, Tok::W(w) if w.starts_with('-') || w.chars().all(|c| c.is_ascii_digit()))) {
                            self.skip_paren();
                        }
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    self.exp(',')?;
                    let b = self.tyop()?;
                    let mut ix = vec![];
                    while self.eat(',') {
                        ix.push(self.tyop()?);
                    }
                    self.exp(')')?;
                    Op::Gep(Box::new(b), t, ix)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    self.exp('(')?;
                    let b = self.tyop()?;
                    self.eatw("to");
                    let t = self.ty()?;
                    self.exp(')')?;
                    Op::Cast(Box::new(b), t)
                }
                w => {
                    // number
                    match ty {
                        Ty::F32 => Op::F32(parse_f(w)?.map_or_else(|b| b, |d| (d as f32).to_bits())),
                        Ty::F64 => Op::F64(parse_f(w)?.map_or_else(|b| b as u64, |d| d.to_bits())),
                        _ => match w.parse::<i128>() {
                            Ok(n) => Op::Int(n),
                            Err(_) => Op::Unsupported(w.to_string()),
                        },
                    }
                }
            },
            x => return Err(format!("operand? {:?}", x)),
        })
    }
    fn aggs(&mut self, end: char) -> R<Vec<(Ty, Op)>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tyop()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn label(&mut self) -> R<Rc<str>> {
        if !self.eatw("label") {
            return Err("label".into());
        }
        match self.next() {
            Some(Tok::L(n)) => Ok(n.as_str().into()),
            x => Err(format!("label? {:?}", x)),
        }
    }
}

/// Ok(double) for a double literal (also in hex), Err(bits) for a raw f32 bit pattern
fn parse_f(w: &str) -> R<Result<f64, u32>> {
    if let Some(h) = w.strip_prefix("f0x") {
        // raw bits
        let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
        if h.len() <= 8 {
            return Ok(Err(v as u32));
        }
        return Ok(Ok(f64::from_bits(v)));
    }
    if let Some(h) = w.strip_prefix("0x") {
        let v = u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", w, e))?;
        return Ok(Ok(f64::from_bits(v)));
    }
    match w {
        "inf" | "+inf" | "pinf" => return Ok(Ok(f64::INFINITY)),
        "-inf" | "ninf" => return Ok(Ok(f64::NEG_INFINITY)),
        "qnan" | "nan" | "+qnan" => return Ok(Ok(f64::NAN)),
        "-qnan" => return Ok(Ok(-f64::NAN)),
        _ => {}
    }
    w.parse::<f64>().map(Ok).map_err(|_| format!("float {}", w))
}

fn parse_ins(toks: &[Tok], types: &HashMap<String, Ty>) -> R<Result<(Option<Rc<str>>, Ins), Term>> {
    let mut p = P { t: toks, i: 0, types };
    let mut dst = None;
    if let (Some(Tok::L(n)), Some(Tok::P('='))) = (toks.get(0), toks.get(1)) {
        dst = Some(Rc::from(n.as_str()));
        p.i = 2;
    }
    let op = match p.next() {
        Some(Tok::W(w)) => w.clone(),
        x => return Err(format!("instruction? {:?}", x)),
    };
    let ins = match op.as_str() {
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1;
            if p.eat(',') {
                if p.word() != "align" {
                    let (_, o) = p.tyop()?;
                    if let Op::Int(k) = o {
                        n = k as u64;
                    } else {
                        return Ok(Ok((dst, Ins::Unsupported("dynamic alloca".into()))));
                    }
                }
            }
            Ins::Alloca(t, n)
        }
        "load" => {
            p.eatw("volatile");
            let t = p.ty()?;
            p.exp(',')?;
            let (_, o) = p.tyop()?;
            Ins::Load(t, o)
        }
        "store" => {
            p.eatw("volatile");
            let (t, v) = p.tyop()?;
            p.exp(',')?;
            let (_, o) = p.tyop()?;
            Ins::Store(t, v, o)
        }
        "getelementptr" => {
            while matches!(p.word(), "inbounds" | "nuw" | "nusw") {
                p.i += 1;
            }
            let t = p.ty()?;
            p.exp(',')?;
            let (_, b) = p.tyop()?;
            let mut ix = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::M) {
                    break;
                }
                ix.push(p.tyop()?);
            }
            Ins::Gep(t, b, ix)
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr"
        | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let mut flags = false;
            while matches!(
                p.word(),
                "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
            ) {
                if matches!(p.word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    flags = true;
                }
                p.i += 1;
            }
            if flags {
                return Ok(Ok((dst, Ins::Unsupported("fast-math flags".into()))));
            }
            let (t, a) = p.tyop()?;
            p.exp(',')?;
            let b = p.op(&t)?;
            Ins::Bin(op, t, a, b)
        }
        "fneg" => {
            let (t, a) = p.tyop()?;
            Ins::FNeg(t, a)
        }
        "icmp" => {
            if p.word() == "samesign" {
                p.i += 1;
            }
            let pr = p.word().to_string();
            p.i += 1;
            let (t, a) = p.tyop()?;
            p.exp(',')?;
            let b = p.op(&t)?;
            Ins::ICmp(pr, t, a, b)
        }
        "fcmp" => {
            let pr = p.word().to_string();
            p.i += 1;
            let (t, a) = p.tyop()?;
            p.exp(',')?;
            let b = p.op(&t)?;
            Ins::FCmp(pr, t, a, b)
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint"
        | "inttoptr" | "bitcast" => {
            while matches!(p.word(), "nneg" | "nuw" | "nsw") {
                p.i += 1;
            }
            let (t, a) = p.tyop()?;
            if !p.eatw("to") {
                return Err("cast to".into());
            }
            let t2 = p.ty()?;
            Ins::Cast(op, t, a, t2)
        }
        "select" => {
            let (_, c) = p.tyop()?;
            p.exp(',')?;
            let (t, a) = p.tyop()?;
            p.exp(',')?;
            let (_, b) = p.tyop()?;
            Ins::Select(c, t, a, b)
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.exp('[')?;
                let o = p.op(&t)?;
                p.exp(',')?;
                let l = match p.next() {
                    Some(Tok::L(n)) => Rc::from(n.as_str()),
                    x => return Err(format!("phi {:?}", x)),
                };
                p.exp(']')?;
                v.push((o, l));
                if !p.eat(',') || p.peek() == Some(&Tok::M) {
                    break;
                }
            }
            Ins::Phi(t, v)
        }
        "call" | "tail" | "musttail" | "notail" => {
            if op != "call" {
                p.eatw("call");
            }
            // calling conventions, return attributes
            let mut nsz = false;
            loop {
                p.attrs();
                match p.word() {
                    "fastcc" | "coldcc" | "ccc" | "unnamed_addr" => {
                        p.i += 1;
                    }
                    "nsz" => {
                        nsz = true;
                        p.i += 1;
                    }
                    "fast" | "nnan" | "ninf" | "arcp" | "contract" | "afn" | "reassoc" => {
                        return Ok(Ok((dst, Ins::Unsupported("fast-math call".into()))))
                    }
                    _ => break,
                }
            }
            let t = p.ty()?;
            // function type for varargs
            if p.is('(') {
                p.skip_paren();
            }
            let mut f = p.op(&Ty::Ptr)?;
            if nsz {
                // the sign of a zero result is not specified
                match &f {
                    Op::Glob(g) if g.starts_with("llvm.minimumnum.") || g.starts_with("llvm.maximumnum.") => {
                        f = Op::Glob(Rc::from(format!("{}.nsz", g).as_str()));
                    }
                    _ => return Ok(Ok((dst, Ins::Unsupported("fast-math call".into())))),
                }
            }
            p.exp('(')?;
            let mut args = vec![];
            if !p.eat(')') {
                loop {
                    if p.word() == "metadata" {
                        return Ok(Ok((dst, Ins::Unsupported("metadata call".into()))));
                    }
                    args.push(p.tyop()?);
                    if p.eat(')') {
                        break;
                    }
                    p.exp(',')?;
                }
            }
            Ins::Call(t, f, args)
        }
        "extractvalue" => {
            let (t, a) = p.tyop()?;
            let mut v = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::M) {
                    break;
                }
                v.push(p.num()? as usize);
            }
            Ins::Extract(t, a, v)
        }
        "insertvalue" => {
            let (t, a) = p.tyop()?;
            p.exp(',')?;
            let (t2, b) = p.tyop()?;
            let mut v = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::M) {
                    break;
                }
                v.push(p.num()? as usize);
            }
            Ins::Insert(t, a, t2, b, v)
        }
        "freeze" => {
            let (t, a) = p.tyop()?;
            Ins::Freeze(t, a)
        }
        "ret" => {
            let t = p.ty()?;
            let o = if t == Ty::Void { None } else { Some(p.op(&t)?) };
            return Ok(Err(Term::Ret(t, o)));
        }
        "br" => {
            if p.word() == "label" {
                return Ok(Err(Term::Br(p.label()?)));
            }
            let (_, c) = p.tyop()?;
            p.exp(',')?;
            let a = p.label()?;
            p.exp(',')?;
            let b = p.label()?;
            return Ok(Err(Term::CondBr(c, a, b)));
        }
        "switch" => {
            let (t, c) = p.tyop()?;
            p.exp(',')?;
            let d = p.label()?;
            p.exp('[')?;
            let mut v = vec![];
            while !p.eat(']') {
                let (_, o) = p.tyop()?;
                p.exp(',')?;
                let l = p.label()?;
                v.push((o, l));
            }
            return Ok(Err(Term::Switch(t, c, d, v)));
        }
        "unreachable" => return Ok(Err(Term::Unreachable)),
        x => Ins::Unsupported(x.to_string()),
    };
    Ok(Ok((dst, ins)))
}

pub fn parse(text: &str, m: &mut Module) -> R<()> {
    let modid = m.nmod;
    m.nmod += 1;
    let lines: Vec<&str> = text.lines().collect();
    // attribute groups containing noreturn
    let mut noret: Vec<String> = vec![];
    for l in &lines {
        if l.starts_with("attributes #") {
            let n: String = l["attributes #".len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
            if l.contains(" noreturn ") {
                noret.push(n);
            }
        }
        if l.starts_with('%') && l.contains(" = type ") {
            let toks = lex(l);
            if let Some(Tok::L(n)) = toks.get(0) {
                let mut p = P { t: &toks, i: 3, types: &m.types };
                if let Ok(t) = p.ty() {
                    m.types.insert(n.clone(), t);
                }
            }
        }
    }
    let types = m.types.clone();
    let mut i = 0;
    let mut pretty = String::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("; ") && !l.starts_with("; Function Attrs") {
            pretty = l[2..].to_string();
        }
        if l.starts_with('@') {
            let toks = lex(l);
            if let Some(Tok::G(n)) = toks.get(0) {
                // find 'constant' or 'global'
                if let Some(k) = toks.iter().position(|t| matches!(t, Tok::W(w) if w=="constant"||w=="global")) {
                    let mut p = P { t: &toks, i: k + 1, types: &types };
                    if let Ok(t) = p.ty() {
                        if let Ok(o) = p.op(&t) {
                            let private = toks[..k].iter().any(|t| matches!(t, Tok::W(w) if w=="private"||w=="internal"));
                            let key = if private { format!("{}:{}", modid, n) } else { n.clone() };
                            m.globals.insert(key, (t, o, modid));
                        }
                    }
                }
            }
        } else if l.starts_with("declare") || l.starts_with("define") {
            let def = l.starts_with("define");
            let toks = lex(l);
            let g = toks
                .iter()
                .position(|t| matches!(t, Tok::G(_)))
                .ok_or_else(|| format!("no name: {}", l))?;
            let name = if let Tok::G(n) = &toks[g] { n.clone() } else { unreachable!() };
            // return type: last type before the name; find by trying positions
            let mut ret = Ty::Void;
            for s in 1..g {
                let mut p = P { t: &toks, i: s, types: &types };
                if let Ok(t) = p.ty() {
                    if p.i == g && !matches!(t, Ty::Other(_)) {
                        ret = t;
                        break;
                    }
                }
            }
            let mut p = P { t: &toks, i: g + 1, types: &types };
            p.exp('(')?;
            let mut params = vec![];
            let mut cnt = 0;
            if !p.eat(')') {
                loop {
                    if p.eat('.') || p.word().starts_with("...") {
                        p.i += 1;
                        while !p.is(')') {
                            p.i += 1;
                        }
                    } else {
                        let t = p.ty()?;
                        p.attrs();
                        let n: Rc<str> = match p.peek() {
                            Some(Tok::L(n)) => {
                                let n = n.as_str().into();
                                p.i += 1;
                                n
                            }
                            _ => format!("{}", cnt).as_str().into(),
                        };
                        cnt += 1;
                        params.push((t, n));
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.exp(',')?;
                }
            }
            let nr = toks[p.i..].iter().any(|t| matches!(t, Tok::A(a) if noret.contains(a)));
            if !def {
                m.decls.entry(name).or_insert(Decl { ret, params: params.into_iter().map(|x| x.0).collect(), noreturn: nr });
            } else {
                m.decls.insert(
                    name.clone(),
                    Decl { ret: ret.clone(), params: params.iter().map(|x| x.0.clone()).collect(), noreturn: nr },
                );
                let mut blocks: Vec<Block> = vec![];
                let mut cur: Option<Block> = None;
                i += 1;
                while i < lines.len() && lines[i] != "}" {
                    let mut l = lines[i].to_string();
                    if l.trim().is_empty() || l.trim_start().starts_with(';') {
                        i += 1;
                        continue;
                    }
                    if !l.starts_with(' ') {
                        // label
                        let lt = l.split(':').next().unwrap().trim().trim_matches('"').to_string();
                        if let Some(b) = cur.take() {
                            blocks.push(b);
                        }
                        cur = Some(Block { name: lt.as_str().into(), ins: vec![], term: Term::Unsupported("none".into()) });
                        i += 1;
                        continue;
                    }
                    // multi-line switch
                    if l.trim_start().starts_with("switch") && !l.contains(']') {
                        loop {
                            i += 1;
                            l.push(' ');
                            l.push_str(lines[i].split(';').next().unwrap());
                            if lines[i].trim_start().starts_with(']') {
                                break;
                            }
                        }
                    }
                    if cur.is_none() {
                        cur = Some(Block { name: "start".into(), ins: vec![], term: Term::Unsupported("none".into()) });
                    }
                    let toks = lex(&l);
                    let b = cur.as_mut().unwrap();
                    match parse_ins(&toks, &types) {
                        Ok(Ok(x)) => b.ins.push(x),
                        Ok(Err(t)) => b.term = t,
                        Err(e) => {
                            let dst = match (toks.get(0), toks.get(1)) {
                                (Some(Tok::L(n)), Some(Tok::P('='))) => Some(Rc::from(n.as_str())),
                                _ => None,
                            };
                            b.ins.push((dst, Ins::Unsupported(format!("{}: {}", e, l.trim()))))
                        }
                    }
                    i += 1;
                }
                if let Some(b) = cur.take() {
                    blocks.push(b);
                }
                let index = blocks.iter().enumerate().map(|(k, b)| (b.name.clone(), k)).collect();
                let mut pretty = std::mem::take(&mut pretty);
                if pretty.is_empty() {
                    pretty = name.to_string();
                }
                m.funcs.insert(name.clone(), Rc::new(Func { name, ret, params, blocks, index, pretty, module: modid }));
            }
        }
        i += 1;
    }
    Ok(())
}
