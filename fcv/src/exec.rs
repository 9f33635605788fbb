//! Symbolic execution of LLVM IR functions into the term graph, merging at post-dominators.
use crate::dag::*;
use crate::ir::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    N(N),
    Agg(Rc<Vec<Val>>),
    Undef,
}

#[derive(Clone)]
struct Alloc {
    bytes: Vec<Option<(N, u8)>>,
}

#[derive(Clone)]
pub struct State {
    env: HashMap<Rc<str>, Val>,
    mem: Vec<Rc<Alloc>>,
    guard: N,
    /// conditions implied by the guard, latest last
    trail: Vec<N>,
    ret: Option<Val>,
}

struct FnInfo {
    f: Rc<Func>,
    /// immediate post-dominator (None: the exit)
    ipd: Vec<Option<usize>>,
    /// heads of loops, with the block after the loop (EXIT: the function returns)
    loops: HashMap<usize, usize>,
}

/// a loop being cut at its head
struct Cut {
    f: Rc<Func>,
    depth: usize,
    head: usize,
    entered: bool,
    backs: Vec<State>,
}
/// sum of integer multiples of terms, and a constant
#[derive(Clone, Debug)]
struct Lin {
    c: Vec<(N, i128)>,
    k: i128,
}
impl Lin {
    fn minus(&self, o: &Lin, m: i128) -> Lin {
        let mut r = self.clone();
        for &(x, v) in &o.c {
            match r.c.iter_mut().find(|y| y.0 == x) {
                Some(y) => y.1 -= m * v,
                None => r.c.push((x, -m * v)),
            }
        }
        r.c.retain(|x| x.1 != 0);
        r.k -= m * o.k;
        r
    }
}
/// what a loop changes
#[derive(Clone, Debug)]
enum Cell {
    Mem(usize, usize, T),
    Reg(Rc<str>, T),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    /// grows by a constant in each round
    Counter(N, u64),
    /// a float that depends on its last value
    Acc(N),
    /// anything
    Opaque,
}

/// loops of a function: head -> first block after it on every path
fn loops(f: &Func, ipd: &[Option<usize>]) -> HashMap<usize, usize> {
    let n = f.blocks.len();
    let succ: Vec<Vec<usize>> = (0..n)
        .map(|b| match &f.blocks[b].term {
            Term::Br(l) => vec![f.index[l]],
            Term::CondBr(_, a, c) => vec![f.index[a], f.index[c]],
            Term::Switch(_, _, d, v) => {
                let mut x = vec![f.index[d]];
                x.extend(v.iter().map(|y| f.index[&y.1]));
                x
            }
            _ => vec![],
        })
        .collect();
    let mut back: Vec<(usize, usize)> = vec![];
    let mut state = vec![0u8; n];
    let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
    state[0] = 1;
    while let Some((b, i)) = stack.pop() {
        if i < succ[b].len() {
            stack.push((b, i + 1));
            let t = succ[b][i];
            match state[t] {
                0 => {
                    state[t] = 1;
                    stack.push((t, 0));
                }
                1 => back.push((b, t)),
                _ => {}
            }
        } else {
            state[b] = 2;
        }
    }
    let mut r = HashMap::new();
    for &(_, h) in &back {
        let mut body: HashSet<usize> = [h].into();
        let mut todo: Vec<usize> = back.iter().filter(|x| x.1 == h).map(|x| x.0).collect();
        while let Some(b) = todo.pop() {
            if body.insert(b) {
                todo.extend((0..n).filter(|&p| succ[p].contains(&b)));
            }
        }
        let mut x = h;
        while body.contains(&x) {
            match ipd[x] {
                Some(y) => x = y,
                None => {
                    x = EXIT;
                    break;
                }
            }
        }
        r.insert(h, x);
    }
    r
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub d: Dag,
    pub panics: Vec<(N, String, Vec<N>)>,
    infos: RefCell<HashMap<String, Rc<FnInfo>>>,
    globals: HashMap<String, u64>,
    ginit: Vec<Rc<Alloc>>,
    fnaddr: Vec<String>,
    /// the writer behind the formatter of a formatting contract
    sink: u64,
    /// symbol -> contract name used instead of the body
    pub summaries: HashMap<String, String>,
    pub executed: HashSet<String>,
    pub steps: u64,
    pub max_unroll: usize,
    cuts: Vec<Cut>,
    /// a loop is being run to see what it changes
    exploring: bool,
    fresh: u64,
    /// loops that cannot be cut
    uncut: HashSet<(*const Func, usize)>,
}

type R<X> = Result<X, String>;

const BASE: u64 = 32;
const FNBASE: u64 = 0xF000_0000_0000_0000;
const EXIT: usize = usize::MAX;
/// address of the items of a contract over slices of any length
const ITEMS: u64 = 1 << 62;
/// items of the other types have a type at bit 56, and those values as f32 also bit 60
const CONVERTED: u64 = 1 << 60;
const ITEM_TYPES: [(&str, u64, bool); 7] = [("item", 32, true), ("item_i8", 8, true), ("item_u8", 8, false), ("item_i16", 16, true), ("item_u16", 16, false), ("item_i32", 32, true), ("item_u32", 32, false)];

fn replace(v: &Val, a: N, b: N) -> Val {
    match v {
        Val::N(n) if *n == a => Val::N(b),
        Val::Agg(x) => Val::Agg(Rc::new(x.iter().map(|y| replace(y, a, b)).collect())),
        x => x.clone(),
    }
}

pub fn dt(t: &Ty) -> R<T> {
    Ok(match t {
        Ty::Int(w) if *w <= 64 => T::I(*w as u8),
        Ty::F32 => T::F32,
        Ty::F64 => T::F64,
        Ty::Ptr => T::I(64),
        t => return Err(format!("unsupported type {:?}", t)),
    })
}

fn is_scalar(t: &Ty) -> bool {
    matches!(t, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
}

fn ipdoms(f: &Func, noret: &dyn Fn(&Block) -> bool) -> Vec<Option<usize>> {
    // post-dominators of the CFG without blocks that cannot return
    let n = f.blocks.len();
    let succ = |b: usize| -> Vec<usize> {
        match &f.blocks[b].term {
            Term::Br(l) => vec![f.index[l]],
            Term::CondBr(_, a, c) => vec![f.index[a], f.index[c]],
            Term::Switch(_, _, d, v) => {
                let mut x = vec![f.index[d]];
                x.extend(v.iter().map(|y| f.index[&y.1]));
                x
            }
            _ => vec![],
        }
    };
    // blocks that can reach a return
    let mut live = vec![false; n];
    loop {
        let mut ch = false;
        for b in 0..n {
            if live[b] || noret(&f.blocks[b]) {
                continue;
            }
            let l = matches!(f.blocks[b].term, Term::Ret(..)) || succ(b).iter().any(|&s| live[s]);
            if l {
                live[b] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // sets as bit vectors; index n = exit
    let w = (n + 1 + 63) / 64;
    let full = vec![!0u64; w];
    let mut pd: Vec<Vec<u64>> = vec![full.clone(); n + 1];
    pd[n] = vec![0; w];
    pd[n][n / 64] |= 1 << (n % 64);
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            if !live[b] {
                continue;
            }
            let mut s: Vec<usize> = succ(b).into_iter().filter(|&x| live[x]).collect();
            if matches!(f.blocks[b].term, Term::Ret(..)) {
                s = vec![n];
            }
            let mut x = full.clone();
            for t in s {
                for k in 0..w {
                    x[k] &= pd[t][k];
                }
            }
            x[b / 64] |= 1 << (b % 64);
            if x != pd[b] {
                pd[b] = x;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let has = |v: &Vec<u64>, i: usize| v[i / 64] >> (i % 64) & 1 == 1;
    let cnt = |v: &Vec<u64>| -> u32 { (0..=n).filter(|&i| has(v, i)).count() as u32 };
    (0..n)
        .map(|b| {
            if !live[b] {
                return None;
            }
            // the strict post-dominator with the most post-dominators itself
            let mut best: Option<(u32, usize)> = None;
            for c in 0..n {
                if c != b && has(&pd[b], c) && live[c] {
                    let k = cnt(&pd[c]);
                    if best.map_or(true, |x| k > x.0) {
                        best = Some((k, c));
                    }
                }
            }
            best.map(|x| x.1)
        })
        .collect()
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Self {
        Exec {
            m,
            d: Dag::default(),
            panics: vec![],
            infos: RefCell::new(HashMap::new()),
            globals: HashMap::new(),
            ginit: vec![],
            fnaddr: vec![],
            sink: 0,
            summaries: HashMap::new(),
            executed: HashSet::new(),
            steps: 0,
            max_unroll: 80,
            cuts: vec![],
            exploring: false,
            fresh: 0,
            uncut: HashSet::new(),
        }
    }
    fn info(&self, f: &Rc<Func>) -> Rc<FnInfo> {
        if let Some(i) = self.infos.borrow().get(&f.name) {
            return i.clone();
        }
        let noret = |b: &Block| {
            matches!(b.term, Term::Unreachable)
                || b.ins.iter().any(|(_, i)| {
                    if let Ins::Call(_, Op::Glob(g), _) = i {
                        self.m.decls.get(&**g).map_or(false, |d| d.noreturn)
                    } else {
                        false
                    }
                })
        };
        let ipd = ipdoms(f, &noret);
        let loops = loops(f, &ipd);
        let i = Rc::new(FnInfo { f: f.clone(), ipd, loops });
        self.infos.borrow_mut().insert(f.name.clone(), i.clone());
        i
    }

    // ---------- memory ----------
    fn new_alloc(&mut self, s: &mut State, size: u64) -> u64 {
        s.mem.push(Rc::new(Alloc { bytes: vec![None; size as usize] }));
        (s.mem.len() as u64) << BASE
    }
    fn store_bytes(&self, al: &mut Alloc, off: usize, n: N, size: usize) {
        for i in 0..size {
            al.bytes[off + i] = Some((n, i as u8));
        }
    }
    fn resolve(&self, s: &State, addr: u64, size: u64) -> R<(usize, usize)> {
        let id = (addr >> BASE) as usize;
        let off = (addr & ((1 << BASE) - 1)) as usize;
        if id == 0 || id > s.mem.len() {
            return Err(format!("bad address {:#x}", addr));
        }
        if off + size as usize > s.mem[id - 1].bytes.len() {
            return Err(format!("access out of bounds at {:#x}+{}", addr, size));
        }
        Ok((id - 1, off))
    }
    fn store(&mut self, s: &mut State, addr: N, ty: &Ty, v: &Val) -> R<()> {
        let size = ty.size();
        if size == 0 {
            return Ok(());
        }
        match self.d.cst(addr) {
            Some(a) => self.store_at(s, a, ty, v),
            None => {
                let nd = self.d.n[addr as usize].clone();
                if let (K::Ite, Some(c)) = (nd.k, self.known(s, nd.a[0])) {
                    self.store(s, nd.a[2 - c as usize], ty, v)
                } else if nd.k == K::Ite {
                    let mut s2 = s.clone();
                    self.store(s, nd.a[1], ty, v)?;
                    self.store(&mut s2, nd.a[2], ty, v)?;
                    self.merge_mem(nd.a[0], s, &s2)
                } else {
                    let a = self.element(s, addr, size).ok_or_else(|| format!("store through symbolic address {}", self.d.show(addr, 3)))?;
                    self.store(s, a, ty, v)
                }
            }
        }
    }
    fn store_at(&mut self, s: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..), Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store_at(s, a + ty.field_offset(i), &ty.elem(i), x)?;
                }
                Ok(())
            }
            (_, Val::Undef) => {
                let size = ty.size();
                if size == 0 {
                    return Ok(());
                }
                let (id, off) = self.resolve(s, a, size)?;
                let al = Rc::make_mut(&mut s.mem[id]);
                for i in 0..size as usize {
                    al.bytes[off + i] = None;
                }
                Ok(())
            }
            (_, Val::N(n)) => {
                let size = ty.size();
                let (id, off) = self.resolve(s, a, size)?;
                let mut n = *n;
                let t = self.d.ty(n);
                if (t.bits() as u64) < size * 8 {
                    n = self.d.mk(K::Zext, T::I((size * 8) as u8), &[n], 0);
                }
                let mut al = (*s.mem[id]).clone();
                self.store_bytes(&mut al, off, n, size as usize);
                s.mem[id] = Rc::new(al);
                Ok(())
            }
            _ => Err(format!("store {:?}", ty)),
        }
    }
    /// an address into one object as a choice between its elements; that it is one of them
    /// becomes an obligation
    fn element(&mut self, s: &State, addr: N, size: u64) -> Option<N> {
        let nd = self.d.n[addr as usize].clone();
        if nd.k != K::Add {
            return None;
        }
        let base = self.d.cst(nd.a[1])?;
        let (id, off) = (base >> BASE, base & ((1 << BASE) - 1));
        if id == 0 || id as usize > s.mem.len() {
            return None;
        }
        let x = nd.a[0];
        let stride = self.d.multiple_of(x);
        let len = s.mem[id as usize - 1].bytes.len() as u64;
        let mut o = off % stride;
        let mut offs = vec![];
        while o + size <= len {
            offs.push(o);
            o += stride;
        }
        if offs.is_empty() || offs.len() > 1024 {
            return None;
        }
        let at = |e: &mut Self, o: u64| {
            let k = e.d.konst(nd.t, o.wrapping_sub(off));
            e.d.mk(K::Eq, T::I(1), &[x, k], 0)
        };
        let mut bad = self.d.tru();
        let mut r = self.d.konst(nd.t, (id << BASE) + offs[offs.len() - 1]);
        for &o in offs.iter().rev() {
            let c = at(self, o);
            let n = self.d.not(c);
            bad = self.d.and(n, bad);
            let a = self.d.konst(nd.t, (id << BASE) + o);
            r = self.d.ite(c, a, r);
        }
        let g = self.d.and(s.guard, bad);
        if self.d.cst(g) != Some(0) {
            let mut trail = s.trail.clone();
            trail.push(bad);
            self.panics.push((g, "memory access out of bounds".into(), trail));
        }
        Some(r)
    }
    fn load(&mut self, s: &State, addr: N, ty: &Ty) -> R<Val> {
        if ty.size() == 0 {
            return Ok(Val::Undef);
        }
        if let Some(v) = self.item(s, addr, ty)? {
            return Ok(v);
        }
        match self.d.cst(addr) {
            Some(a) => self.load_at(s, a, ty),
            None => {
                let nd = self.d.n[addr as usize].clone();
                if let (K::Ite, Some(c)) = (nd.k, self.known(s, nd.a[0])) {
                    self.load(s, nd.a[2 - c as usize], ty)
                } else if nd.k == K::Ite {
                    let a = self.load(s, nd.a[1], ty)?;
                    let b = self.load(s, nd.a[2], ty)?;
                    self.merge_val(nd.a[0], &a, &b)
                } else {
                    let a = self.element(s, addr, ty.size()).ok_or_else(|| format!("load through symbolic address {}", self.d.show(addr, 3)))?;
                    self.load(s, a, ty)
                }
            }
        }
    }
    fn byte(&mut self, b: (N, u8)) -> N {
        let x = self.d.to_bits(b.0);
        self.d.mk(K::Extract, T::I(8), &[x], 8 * b.1 as u64)
    }
    fn load_at(&mut self, s: &State, a: u64, ty: &Ty) -> R<Val> {
        if !is_scalar(ty) {
            let n = ty.count();
            let mut v = vec![];
            for i in 0..n {
                v.push(self.load_at(s, a + ty.field_offset(i), &ty.elem(i))?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let size = ty.size();
        let (id, off) = self.resolve(s, a, size)?;
        let bytes: Vec<Option<(N, u8)>> = s.mem[id].bytes[off..off + size as usize].to_vec();
        if bytes.iter().all(|b| b.is_none()) {
            return Ok(Val::Undef);
        }
        let t = dt(ty)?;
        if let Some((n, 0)) = bytes[0] {
            if self.d.ty(n).bits() as u64 == size * 8
                && bytes.iter().enumerate().all(|(i, b)| *b == Some((n, i as u8)))
            {
                return Ok(Val::N(self.conv(n, t)));
            }
        }
        // group into maximal runs of one node, little endian
        let mut parts: Vec<N> = vec![];
        let mut i = 0usize;
        while i < size as usize {
            match bytes[i] {
                None => {
                    parts.push(self.d.konst(T::I(8), 0));
                    i += 1;
                }
                Some((n, k)) => {
                    let mut j = 1;
                    while i + j < size as usize && bytes[i + j] == Some((n, k + j as u8)) {
                        j += 1;
                    }
                    let x = self.d.to_bits(n);
                    parts.push(self.d.mk(K::Extract, T::I((8 * j) as u8), &[x], 8 * k as u64));
                    i += j;
                }
            }
        }
        let mut acc = parts[0];
        for &p in &parts[1..] {
            let w = self.d.ty(acc).bits() + self.d.ty(p).bits();
            acc = self.d.mk(K::Concat, T::I(w as u8), &[p, acc], 0);
        }
        Ok(Val::N(self.conv(acc, t)))
    }
    /// reinterpret a value of the same storage size
    fn conv(&mut self, n: N, t: T) -> N {
        let s = self.d.ty(n);
        if s == t {
            return n;
        }
        let b = self.d.to_bits(n);
        match t {
            T::I(w) => {
                if (w as u32) < self.d.ty(b).bits() {
                    self.d.mk(K::Extract, t, &[b], 0)
                } else {
                    b
                }
            }
            _ => self.d.of_bits(b, t),
        }
    }
    fn merge_val(&mut self, c: N, a: &Val, b: &Val) -> R<Val> {
        Ok(match (a, b) {
            (Val::Undef, x) | (x, Val::Undef) => x.clone(),
            (Val::N(x), Val::N(y)) => {
                if x == y {
                    Val::N(*x)
                } else {
                    Val::N(self.d.ite(c, *x, *y))
                }
            }
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Ok(a.clone());
                }
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.merge_val(c, &x[i], &y[i])?);
                }
                Val::Agg(Rc::new(v))
            }
            _ => return Err("merge of different shapes".into()),
        })
    }
    fn merge_mem(&mut self, c: N, a: &mut State, b: &State) -> R<()> {
        let n = a.mem.len().max(b.mem.len());
        for i in 0..n {
            if i >= b.mem.len() {
                continue;
            }
            if i >= a.mem.len() {
                a.mem.push(b.mem[i].clone());
                continue;
            }
            if Rc::ptr_eq(&a.mem[i], &b.mem[i]) {
                continue;
            }
            if a.mem[i].bytes.len() != b.mem[i].bytes.len() {
                // local objects of the two branches, dead after the merge
                if b.mem[i].bytes.len() > a.mem[i].bytes.len() {
                    a.mem[i] = b.mem[i].clone();
                }
                continue;
            }
            let x = a.mem[i].bytes.clone();
            let y = b.mem[i].bytes.clone();
            let mut out = x.clone();
            let mut o = 0;
            while o < x.len() {
                if x[o] == y[o] || y[o].is_none() {
                    o += 1;
                    continue;
                }
                if x[o].is_none() {
                    out[o] = y[o];
                    o += 1;
                    continue;
                }
                let (p, q) = (x[o].unwrap(), y[o].unwrap());
                let run = |v: &Vec<Option<(N, u8)>>, n: N| -> usize {
                    let sz = (self.d.ty(n).bits() as usize + 7) / 8;
                    if o + sz <= v.len() && (0..sz).all(|k| v[o + k] == Some((n, k as u8))) {
                        sz
                    } else {
                        0
                    }
                };
                let (r1, r2) = (run(&x, p.0), run(&y, q.0));
                if r1 > 0 && r1 == r2 {
                    let t = self.d.ty(p.0);
                    let q2 = self.conv(q.0, t);
                    let m = self.d.ite(c, p.0, q2);
                    for k in 0..r1 {
                        out[o + k] = Some((m, k as u8));
                    }
                    o += r1;
                } else {
                    let bp = self.byte(p);
                    let bq = self.byte(q);
                    let m = self.d.ite(c, bp, bq);
                    out[o] = Some((m, 0));
                    o += 1;
                }
            }
            a.mem[i] = Rc::new(Alloc { bytes: out });
        }
        Ok(())
    }
    fn merge(&mut self, c: N, a: Option<State>, b: Option<State>) -> R<Option<State>> {
        let (mut a, b) = match (a, b) {
            (None, x) | (x, None) => return Ok(x),
            (Some(a), Some(b)) => (a, b),
        };
        let mut env = HashMap::new();
        for (k, v) in a.env.iter() {
            match b.env.get(k) {
                Some(w) => {
                    let same = match (v, w) {
                        (Val::N(x), Val::N(y)) => x == y,
                        (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y),
                        (Val::Undef, Val::Undef) => true,
                        _ => false,
                    };
                    if same {
                        env.insert(k.clone(), v.clone());
                    } else {
                        env.insert(k.clone(), self.merge_val(c, v, w)?);
                    }
                }
                None => {
                    env.insert(k.clone(), v.clone());
                }
            }
        }
        for (k, v) in b.env.iter() {
            if !a.env.contains_key(k) {
                env.insert(k.clone(), v.clone());
            }
        }
        a.env = env;
        self.merge_mem(c, &mut a, &b)?;
        a.guard = self.d.or(a.guard, b.guard);
        let common = a.trail.iter().zip(&b.trail).take_while(|x| x.0 == x.1).count();
        a.trail.truncate(common);
        a.ret = match (&a.ret, &b.ret) {
            (Some(x), Some(y)) => Some(self.merge_val(c, x, y)?),
            (x, y) => x.clone().or(y.clone()),
        };
        Ok(Some(a))
    }

    // ---------- operands ----------
    fn global_addr(&mut self, s: &mut State, module: usize, name: &str) -> R<u64> {
        let key = {
            let k = format!("{}:{}", module, name);
            if self.m.globals.contains_key(&k) {
                k
            } else {
                name.to_string()
            }
        };
        if !self.m.globals.contains_key(&key) {
            if self.m.decls.contains_key(name) {
                let i = self.fnaddr.iter().position(|x| x == name).unwrap_or_else(|| {
                    self.fnaddr.push(name.to_string());
                    self.fnaddr.len() - 1
                });
                return Ok(FNBASE + 16 * (i as u64 + 1));
            }
            return Err(format!("unknown global {}", name));
        }
        if let Some(&a) = self.globals.get(&key) {
            return Ok(a);
        }
        let (ty, init, gm) = self.m.globals[&key].clone();
        // globals live in the first allocations, which are created before execution
        let id = self.ginit.len();
        self.ginit.push(Rc::new(Alloc { bytes: vec![None; ty.size() as usize] }));
        let addr = ((1u64 << 20) + id as u64) << BASE;
        self.globals.insert(key, addr);
        let mut bytes = vec![None; ty.size() as usize];
        self.init_bytes(s, gm, &ty, &init, 0, &mut bytes)?;
        self.ginit[id] = Rc::new(Alloc { bytes });
        Ok(addr)
    }
    fn init_bytes(&mut self, s: &mut State, gm: usize, ty: &Ty, o: &Op, off: usize, out: &mut Vec<Option<(N, u8)>>) -> R<()> {
        match o {
            Op::Undef => {}
            Op::Str(b) => {
                for (i, x) in b.iter().enumerate() {
                    let n = self.d.konst(T::I(8), *x as u64);
                    out[off + i] = Some((n, 0));
                }
            }
            Op::Zero => {
                let n = self.d.konst(T::I(8), 0);
                for i in 0..ty.size() as usize {
                    out[off + i] = Some((n, 0));
                }
            }
            Op::Agg(v) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    self.init_bytes(s, gm, t, x, off + ty.field_offset(i) as usize, out)?;
                }
            }
            _ => {
                if let Val::N(n) = self.op(s, gm, ty, o)? {
                    let sz = ty.size() as usize;
                    let n = if (self.d.ty(n).bits() as usize) < sz * 8 {
                        self.d.mk(K::Zext, T::I((sz * 8) as u8), &[n], 0)
                    } else {
                        n
                    };
                    for i in 0..sz {
                        out[off + i] = Some((n, i as u8));
                    }
                }
            }
        }
        Ok(())
    }
    fn op(&mut self, s: &mut State, module: usize, ty: &Ty, o: &Op) -> R<Val> {
        Ok(match o {
            Op::Reg(r) => match s.env.get(r) {
                Some(v) => v.clone(),
                None => return Err(format!("undefined register {}", r)),
            },
            Op::Glob(g) => {
                let a = self.global_addr(s, module, g)?;
                Val::N(self.d.konst(T::I(64), a))
            }
            Op::Int(v) => Val::N(self.d.konst(dt(ty)?, *v as u64)),
            Op::F32(b) => Val::N(self.d.konst(T::F32, *b as u64)),
            Op::F64(b) => Val::N(self.d.konst(T::F64, *b)),
            Op::Undef => self.undef(ty),
            Op::Zero => self.zero(ty)?,
            Op::Agg(v) => {
                let mut x = vec![];
                for (t, o) in v {
                    x.push(self.op(s, module, t, o)?);
                }
                Val::Agg(Rc::new(x))
            }
            Op::Gep(b, t, ix) => {
                let base = self.op(s, module, &b.0, &b.1)?;
                self.gep(s, module, t, base, ix)?
            }
            Op::Cast(b, t) => {
                let v = self.op(s, module, &b.0, &b.1)?;
                match v {
                    Val::N(n) => Val::N(self.conv(n, dt(t)?)),
                    v => v,
                }
            }
            Op::Str(_) | Op::Unsupported(_) => return Err(format!("unsupported operand {:?}", o)),
        })
    }
    fn undef(&self, ty: &Ty) -> Val {
        if is_scalar(ty) || ty.count() == 0 {
            Val::Undef
        } else {
            Val::Agg(Rc::new((0..ty.count()).map(|i| self.undef(&ty.elem(i))).collect()))
        }
    }
    fn zero(&mut self, ty: &Ty) -> R<Val> {
        if is_scalar(ty) {
            Ok(Val::N(self.d.konst(dt(ty)?, 0)))
        } else {
            let mut v = vec![];
            for i in 0..ty.count() {
                v.push(self.zero(&ty.elem(i))?);
            }
            Ok(Val::Agg(Rc::new(v)))
        }
    }
    fn node(&mut self, v: Val, ty: &Ty) -> R<N> {
        match v {
            Val::N(n) => Ok(n),
            Val::Undef => Ok(self.d.konst(dt(ty)?, 0)),
            Val::Agg(_) => Err("aggregate where a scalar is expected".into()),
        }
    }
    fn opn(&mut self, s: &mut State, module: usize, ty: &Ty, o: &Op) -> R<N> {
        let v = self.op(s, module, ty, o)?;
        self.node(v, ty)
    }
    fn gep(&mut self, s: &mut State, module: usize, t: &Ty, base: Val, ix: &[(Ty, Op)]) -> R<Val> {
        let mut a = self.node(base, &Ty::Ptr)?;
        let mut cur = t.clone();
        for (i, (it, io)) in ix.iter().enumerate() {
            let idx = self.opn(s, module, it, io)?;
            let iw = self.d.ty(idx).bits();
            if i == 0 {
                let idx = if iw < 64 { self.d.mk(K::Sext, T::I(64), &[idx], 0) } else { idx };
                let sz = self.d.konst(T::I(64), cur.size());
                let off = self.d.mk(K::Mul, T::I(64), &[idx, sz], 0);
                a = self.d.mk(K::Add, T::I(64), &[a, off], 0);
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let k = self.d.cst(idx).ok_or("symbolic struct index")? as usize;
                        let off = self.d.konst(T::I(64), cur.field_offset(k));
                        a = self.d.mk(K::Add, T::I(64), &[a, off], 0);
                        cur = cur.elem(k);
                    }
                    Ty::Array(_, e) | Ty::Vector(_, e) => {
                        let e = (**e).clone();
                        let idx = if iw < 64 { self.d.mk(K::Sext, T::I(64), &[idx], 0) } else { idx };
                        let sz = self.d.konst(T::I(64), e.size());
                        let off = self.d.mk(K::Mul, T::I(64), &[idx, sz], 0);
                        a = self.d.mk(K::Add, T::I(64), &[a, off], 0);
                        cur = e;
                    }
                    _ => return Err("gep".into()),
                }
            }
        }
        Ok(Val::N(a))
    }

    // ---------- execution ----------
    /// run a whole function on argument values
    pub fn call(&mut self, s: State, name: &str, args: Vec<Val>, depth: usize) -> R<Option<State>> {
        if depth > 200 {
            return Err("call depth".into());
        }
        let f = self.m.funcs.get(name).cloned().ok_or_else(|| format!("no body for {}", name))?;
        self.executed.insert(name.to_string());
        let fi = self.info(&f);
        let mut st = s;
        let saved_env = std::mem::take(&mut st.env);
        for ((_, n), v) in f.params.iter().zip(args) {
            st.env.insert(n.clone(), v);
        }
        let mut counts = vec![0usize; f.blocks.len()];
        let r = self.region(&fi, 0, st, EXIT, &mut counts, depth)?;
        Ok(r.map(|mut x| {
            x.env = saved_env;
            x
        }))
    }
    fn arrive(&mut self, fi: &FnInfo, from: usize, to: usize, s: &mut State) -> R<()> {
        let f = fi.f.clone();
        let fname = f.blocks[from].name.clone();
        let mut upd = vec![];
        for (dst, ins) in &f.blocks[to].ins {
            if let Ins::Phi(t, v) = ins {
                let o = v
                    .iter()
                    .find(|x| x.1 == fname)
                    .ok_or_else(|| format!("phi without predecessor {}", fname))?;
                let x = self.op(s, f.module, t, &o.0)?;
                upd.push((dst.clone().unwrap(), x));
            } else {
                break;
            }
        }
        for (k, v) in upd {
            s.env.insert(k, v);
        }
        Ok(())
    }
    fn region(
        &mut self,
        fi: &Rc<FnInfo>,
        start: usize,
        mut s: State,
        stop: usize,
        counts: &mut Vec<usize>,
        depth: usize,
    ) -> R<Option<State>> {
        let f = fi.f.clone();
        let mut cur = start;
        loop {
            if cur == stop {
                return Ok(Some(s));
            }
            if self.d.items.is_some() && fi.loops.contains_key(&cur) && !self.uncut.contains(&(Rc::as_ptr(&f), cur)) {
                match self.cuts.last_mut() {
                    Some(c) if c.head == cur && c.depth == depth && Rc::ptr_eq(&c.f, &f) => {
                        if c.entered {
                            c.backs.push(s);
                            return Ok(None);
                        }
                        c.entered = true;
                    }
                    Some(_) => {}
                    None => {
                        let np = self.panics.len();
                        match self.cut(fi, cur, &s, depth) {
                            Ok(None) => return Ok(None),
                            Ok(Some(x)) => {
                                let to = fi.loops[&cur];
                                if to == EXIT {
                                    return Ok(Some(x));
                                }
                                s = x;
                                cur = to;
                                continue;
                            }
                            Err(x) => {
                                // run it as far as it goes
                                self.panics.truncate(np);
                                self.cuts.clear();
                                self.exploring = false;
                                self.uncut.insert((Rc::as_ptr(&f), cur));
                                if std::env::var("FCV_CUT").is_ok() {
                                    eprintln!("loop in {:.200}: {}", f.pretty, x);
                                }
                            }
                        }
                    }
                }
            }
            self.steps += 1;
            if self.steps > 3_000_000 {
                return Err("step limit".into());
            }
            let b = &f.blocks[cur];
            for (dst, ins) in &b.ins {
                if matches!(ins, Ins::Phi(..)) {
                    continue;
                }
                match self.step(&f, s, dst.as_ref(), ins, depth)? {
                    Some(x) => s = x,
                    None => return Ok(None),
                }
            }
            match &b.term {
                Term::Ret(t, o) => {
                    if let Some(o) = o {
                        let v = self.op(&mut s, f.module, t, o)?;
                        s.ret = Some(v);
                    } else {
                        s.ret = Some(Val::Undef);
                    }
                    return Ok(Some(s));
                }
                Term::Br(l) => {
                    let to = f.index[l];
                    self.arrive(fi, cur, to, &mut s)?;
                    cur = to;
                }
                Term::CondBr(c, a, bb) => {
                    let c = self.opn(&mut s, f.module, &Ty::Int(1), c)?;
                    let (ta, tb) = (f.index[a], f.index[bb]);
                    match self.fork(fi, cur, c, ta, tb, s, stop, counts, depth)? {
                        Next::Done(x) => return Ok(x),
                        Next::Go(x, to) => {
                            s = x;
                            cur = to;
                        }
                    }
                }
                Term::Switch(t, o, d, v) => {
                    let x = self.opn(&mut s, f.module, t, o)?;
                    let cases: Vec<(N, usize)> = {
                        let mut r = vec![];
                        for (co, l) in v {
                            let k = self.opn(&mut s, f.module, t, co)?;
                            r.push((k, f.index[l]));
                        }
                        r
                    };
                    let def = f.index[d];
                    match self.switch(fi, cur, x, &cases, def, s, stop, counts, depth)? {
                        Next::Done(x) => return Ok(x),
                        Next::Go(x, to) => {
                            s = x;
                            cur = to;
                        }
                    }
                }
                Term::Unreachable => return Ok(None),
                Term::Unsupported(x) => return Err(format!("terminator {}", x)),
            }
        }
    }
    // ---------- loops over all items ----------
    fn cell(&mut self, s: &State, c: &Cell) -> R<Option<N>> {
        Ok(match c {
            Cell::Reg(r, _) => match s.env.get(r) {
                Some(Val::N(n)) => Some(*n),
                _ => None,
            },
            Cell::Mem(id, off, t) => {
                let ty = match t {
                    T::F32 => Ty::F32,
                    T::F64 => Ty::F64,
                    T::I(w) => Ty::Int(*w as u32),
                };
                match self.load_at(s, ((*id as u64 + 1) << BASE) + *off as u64, &ty)? {
                    Val::N(n) => Some(n),
                    _ => None,
                }
            }
        })
    }
    fn set_cell(&mut self, s: &mut State, c: &Cell, n: N) {
        match c {
            Cell::Reg(r, _) => {
                s.env.insert(r.clone(), Val::N(n));
            }
            Cell::Mem(id, off, t) => {
                let mut al = (*s.mem[*id]).clone();
                self.store_bytes(&mut al, *off, n, t.bits() as usize / 8);
                s.mem[*id] = Rc::new(al);
            }
        }
    }
    /// every cell holds the same value
    fn same_bytes(&mut self, s: &State, a: (usize, usize), b: (usize, usize), size: usize) -> N {
        let (x, y) = (s.mem[a.0].clone(), s.mem[b.0].clone());
        let mut r = self.d.konst(T::I(1), 1);
        let mut o = 0;
        while o < size {
            let (p, q) = (x.bytes[a.1 + o], y.bytes[b.1 + o]);
            if p == q {
                o += 1;
                continue;
            }
            let (Some((n, 0)), Some((m, 0))) = (p, q) else { return self.d.konst(T::I(1), 0) };
            let (t, w) = (self.d.ty(n), self.d.ty(n).bits() as usize / 8);
            if t.is_f() || self.d.ty(m) != t || o + w > size || !(0..w).all(|i| x.bytes[a.1 + o + i] == Some((n, i as u8)) && y.bytes[b.1 + o + i] == Some((m, i as u8))) {
                return self.d.konst(T::I(1), 0);
            }
            let e = self.d.mk(K::Eq, T::I(1), &[n, m], 0);
            r = self.d.and(r, e);
            o += w;
        }
        r
    }
    /// the term of a sum
    fn build(&mut self, l: &Lin) -> N {
        let mut c = l.c.clone();
        c.sort();
        let mut r = self.d.konst(T::I(64), l.k as u64);
        for (x, v) in c {
            let x = if self.d.ty(x).bits() < 64 { self.d.mk(K::Zext, T::I(64), &[x], 0) } else { x };
            let v = self.d.konst(T::I(64), v as u64);
            let y = self.d.mk(K::Mul, T::I(64), &[x, v], 0);
            r = self.d.mk(K::Add, T::I(64), &[y, r], 0);
        }
        r
    }
    fn fresh(&mut self, t: T) -> N {
        self.fresh += 1;
        let k = self.d.konst(T::I(64), self.fresh);
        self.callnode("any_value", t, vec![k])
    }
    /// one round: the state that leaves the loop and the one at its head again
    fn turn(&mut self, fi: &Rc<FnInfo>, h: usize, s: State, depth: usize, explore: bool) -> R<(Option<State>, Option<State>)> {
        let np = self.panics.len();
        self.cuts.push(Cut { f: fi.f.clone(), depth, head: h, entered: false, backs: vec![] });
        self.exploring = explore;
        let mut counts = vec![0usize; fi.f.blocks.len()];
        let r = self.region(fi, h, s, fi.loops[&h], &mut counts, depth);
        self.exploring = false;
        let mut c = self.cuts.pop().ok_or("cut")?;
        let r = r?;
        if explore {
            self.panics.truncate(np);
        }
        if c.backs.len() > 1 {
            return Err("several ways back to the head".into());
        }
        Ok((r, c.backs.pop()))
    }
    /// cells that differ between the head and the end of a round
    fn changed(&mut self, fi: &FnInfo, h: usize, s: &State, b: &State, old: &[Cell]) -> R<Vec<Cell>> {
        let mut r: Vec<Cell> = vec![];
        for (dst, ins) in &fi.f.blocks[h].ins {
            let Ins::Phi(t, _) = ins else { break };
            let dst = dst.clone().unwrap();
            if old.iter().any(|c| matches!(c, Cell::Reg(x, _) if *x == dst)) {
                continue;
            }
            match (s.env.get(&dst), b.env.get(&dst)) {
                (Some(Val::N(x)), Some(Val::N(y))) if x == y => {}
                (Some(Val::N(_)), Some(Val::N(_))) => r.push(Cell::Reg(dst, dt(t)?)),
                _ => return Err("aggregate at the head of a loop".into()),
            }
        }
        for id in 0..s.mem.len() {
            if Rc::ptr_eq(&s.mem[id], &b.mem[id]) {
                continue;
            }
            let (x, y) = (s.mem[id].bytes.clone(), b.mem[id].bytes.clone());
            let mut o = 0;
            while o < x.len() {
                if x[o] == y[o] {
                    o += 1;
                    continue;
                }
                if let Some(Cell::Mem(_, off, t)) = old.iter().find(|c| matches!(c, Cell::Mem(i, off, t) if *i == id && *off <= o && o < off + t.bits() as usize / 8)) {
                    o = off + t.bits() as usize / 8;
                    continue;
                }
                let run = |d: &Dag, v: &Vec<Option<(N, u8)>>| -> Option<(usize, T)> {
                    let (n, k) = v[o]?;
                    let t = d.ty(n);
                    let sz = t.bits() as usize / 8;
                    let st = o.checked_sub(k as usize)?;
                    (sz > 0 && sz * 8 == t.bits() as usize && st + sz <= v.len() && (0..sz).all(|i| v[st + i] == Some((n, i as u8)))).then_some((st, t))
                };
                let (st, t) = run(&self.d, &x).or(run(&self.d, &y)).unwrap_or((o, T::I(8)));
                let e = st + t.bits() as usize / 8;
                let overlap = |c: &Cell| matches!(c, Cell::Mem(i, off, t) if *i == id && *off < e && st < off + t.bits() as usize / 8);
                if old.iter().any(overlap) || r.iter().any(overlap) {
                    return Err("overlapping cells".into());
                }
                r.push(Cell::Mem(id, st, t));
                o = e;
            }
        }
        Ok(r)
    }
    /// Replaces a loop by its effect: counters and sums over all items. `s` is the state at the head.
    ///   1. the cells it changes, to a fixed point, from arbitrary values of those cells
    ///   2. counters are init + step * index at the head of round `index`
    ///   3. the number of rounds is n or n - 1: no path leaves earlier (an obligation for an
    ///      arbitrary index) and every path leaves then
    ///   4. an accumulator whose next value depends on nothing else that changes but the index
    ///      becomes a fold
    /// Everything else the loop changes is arbitrary afterwards.
    fn cut(&mut self, fi: &Rc<FnInfo>, h: usize, s0: &State, depth: usize) -> R<Option<State>> {
        let (items, _) = self.d.items.unwrap();
        let mut cells: Vec<Cell> = vec![];
        let mut havoc: Vec<N> = vec![];
        let mut rounds = 0;
        let back = loop {
            let mut s = s0.clone();
            for (c, &v) in cells.iter().zip(&havoc) {
                self.set_cell(&mut s, c, v);
            }
            let (_, back) = self.turn(fi, h, s.clone(), depth, true)?;
            let back = back.ok_or("the loop does not repeat")?;
            let new = self.changed(fi, h, &s, &back, &cells)?;
            if new.is_empty() {
                break back;
            }
            for c in new {
                let t = match c {
                    Cell::Mem(_, _, t) | Cell::Reg(_, t) => t,
                };
                havoc.push(self.fresh(t));
                cells.push(c);
            }
            rounds += 1;
            if rounds > 8 {
                return Err("no fixed point".into());
            }
        };
        let mut roles = vec![];
        for (c, &v) in cells.iter().zip(&havoc) {
            let (init, next) = (self.cell(s0, c)?, self.cell(&back, c)?);
            let next = next.map(|n| self.settled(&back, n));
            let t = self.d.ty(v);
            roles.push(match (init, next) {
                (Some(i), Some(n)) => {
                    let nd = self.d.n[n as usize].clone();
                    match self.d.cst(*nd.a.get(1).unwrap_or(&n)) {
                        Some(k) if nd.k == K::Add && nd.a[0] == v => Role::Counter(i, k),
                        _ => Role::Acc(i),
                        _ => Role::Opaque,
                    }
                }
                _ => Role::Opaque,
            });
        }
        let zero = self.d.konst(T::I(64), 0);
        let t = match self.d.n[items as usize].clone() {
            n if n.k == K::Zext => self.d.ty(n.a[0]),
            n => n.t,
        };
        let index = self.callnode("loop_index", t, vec![zero]);
        let index = if t.bits() < 64 { self.d.mk(K::Zext, T::I(64), &[index], 0) } else { index };
        let mut start = zero;
        for r in &roles {
            let Role::Counter(i, step) = *r else { continue };
            if self.d.ty(i).bits() < 64 {
                continue;
            }
            let Some(mut l) = self.linear(i) else { continue };
            if l.k < ITEMS as i128 || l.k >= FNBASE as i128 || l.c.is_empty() {
                continue;
            }
            let size = if l.k as u64 & CONVERTED != 0 { 4 } else { ITEM_TYPES.get((l.k >> 56 & 15) as usize).map_or(4, |t| t.1 as i128 / 8) };
            l.k &= (1 << 56) - 1;
            if step != size as u64 || l.k % size != 0 || l.c.iter().any(|x| x.1 % size != 0) {
                return Err("start of the loop".into());
            }
            l.k /= size;
            l.c.iter_mut().for_each(|x| x.1 /= size);
            start = self.build(&l);
            break;
        }
        let late = start != zero;
        if late {
            let ok = self.d.mk(K::Ule, T::I(1), &[start, items], 0);
            if self.known(s0, ok) != Some(true) {
                return Err("the loop may start behind the last item".into());
            }
        }
        let minus = self.d.konst(T::I(64), u64::MAX);
        let less = self.d.mk(K::Add, T::I(64), &[items, minus], 0);
        let mut ends = None;
        for n in [items, less] {
            if late && n != items {
                break;
            }
            let s = self.at_head(s0, &cells, &roles, start, n, &havoc)?;
            let (exit, back) = self.turn(fi, h, s, depth, true)?;
            if std::env::var("FCV_CUT").is_ok() {
                eprintln!("rounds {:?}: exit {} back {} roles {:?} cells {:?}", n, exit.is_some(), back.is_some(), roles, cells);
                if let Some(x) = &exit { if let Some(&g) = x.trail.last() { eprintln!("  exit guard {}", self.d.show(g, 6)); } }
                if let Some(x) = &back { eprintln!("  back guard {}", self.d.show(x.guard, 12)); }
            }
            if exit.is_some() && back.is_none() {
                ends = Some(n);
                break;
            }
        }
        let n = ends.ok_or("the number of rounds is not found")?;
        // an arbitrary round
        let mut s = self.at_head(s0, &cells, &roles, start, index, &havoc)?;
        let within = self.d.mk(K::Ult, T::I(1), &[index, n], 0);
        let from = self.d.mk(K::Ule, T::I(1), &[start, index], 0);
        if late {
            s.guard = self.d.and(s.guard, from);
            s.trail.push(from);
        }
        s.guard = self.d.and(s.guard, within);
        s.trail.push(within);
        // a search: the condition to go on depends on the item alone
        let mut open = s.clone();
        open.guard = self.d.konst(T::I(1), 1);
        let vary: HashSet<N> = havoc.iter().copied().collect();
        if let (Some(_), Some(b)) = self.turn(fi, h, open, depth, true)? {
            let go = b.guard;
            let has_item = self.d.any(go, &|x| ITEM_TYPES.iter().any(|t| self.d.is_call(x, t.0)), &mut HashSet::new());
            if n == items && has_item && !self.d.any(go, &|x| vary.contains(&x), &mut HashSet::new()) {
                return self.search(fi, h, s0, s, depth, &cells, &roles, &havoc, (start, index, items), go);
            }
        }
        if n != items {
            // at least one item
            let e = self.d.mk(K::Eq, T::I(1), &[items, zero], 0);
            let g = self.d.and(s0.guard, e);
            let mut trail = s0.trail.clone();
            trail.push(e);
            self.panic_at(g, trail, format!("loop without items in {}", fi.f.pretty));
        }
        let (exit, back) = self.turn(fi, h, s, depth, false)?;
        let back = back.ok_or("the loop does not repeat")?;
        if let Some(x) = exit {
            self.panic_at(x.guard, x.trail, format!("loop may end before the last item in {}", fi.f.pretty));
        }
        let mut after = havoc.clone();
        let mut folds: Vec<Option<(usize, N)>> = vec![None; cells.len()];
        for i in 0..cells.len() {
            after[i] = self.fresh(self.d.ty(havoc[i]));
            let Role::Acc(init) = roles[i] else { continue };
            if late {
                continue;
            }
            let Some(next) = self.cell(&back, &cells[i])? else { continue };
            let next = self.settled(&back, next);
            let own = havoc[i];
            if self.d.any(next, &|x| x != own && vary.contains(&x), &mut HashSet::new()) {
                continue;
            }
            if !self.d.any(next, &|x| x == own, &mut HashSet::new()) {
                // the last round decides
                let at = self.d.mk(K::Add, T::I(64), &[n, minus], 0);
                let last = self.d.subst(next, &mut [(index, at)].into());
                let none = self.d.mk(K::Eq, T::I(1), &[n, zero], 0);
                after[i] = if self.known(s0, none) == Some(false) { last } else { self.d.ite(none, init, last) };
                continue;
            }
            let t = self.d.ty(own);
            let acc = self.callnode("accumulator", t, vec![zero]);
            let template = self.d.subst(next, &mut [(own, acc)].into());
            // -0.0 + x * x is 0.0 + x * x
            let nd = self.d.n[template as usize].clone();
            let mut init = init;
            if nd.k == K::FAdd && self.d.cst(init) == Some(1 << (t.bits() - 1)) {
                let o = if nd.a[0] == acc { nd.a[1] } else { nd.a[0] };
                let sq = self.d.n[o as usize].clone();
                if nd.a.contains(&acc) && sq.k == K::FMul && sq.a[0] == sq.a[1] {
                    init = self.d.konst(t, 0);
                }
            }
            let f = Fold { acc, index, template };
            let k = self.d.folds.iter().position(|x| *x == f).unwrap_or_else(|| {
                self.d.folds.push(f);
                self.d.folds.len() - 1
            });
            folds[i] = Some((k, init));
            let f = self.callnode(&format!("fold_{}", k), t, vec![init, n]);
            let none = self.d.mk(K::Eq, T::I(1), &[n, zero], 0);
            let Role::Acc(first) = roles[i] else { continue };
            after[i] = if self.known(s0, none) == Some(false) { f } else { self.d.ite(none, first, f) };
        }
        let s = self.at_head(s0, &cells, &roles, start, n, &after)?;
        let (exit, back) = self.turn(fi, h, s, depth, false)?;
        if back.is_some() {
            return Err("the loop goes on".into());
        }
        let Some(mut x) = exit else { return Ok(None) };
        if n != items {
            // the last round was run in the open: its value is the fold over all items
            for (i, f) in folds.iter().enumerate() {
                let Some((k, init)) = *f else { continue };
                let Fold { acc, template, .. } = self.d.folds[k];
                let last = self.d.subst(template, &mut [(acc, after[i]), (index, n)].into());
                let all = self.callnode(&format!("fold_{}", k), self.d.ty(acc), vec![init, items]);
                for m in x.mem.iter_mut() {
                    if m.bytes.iter().any(|b| matches!(b, Some((v, _)) if *v == last)) {
                        for b in Rc::make_mut(m).bytes.iter_mut().flatten() {
                            if b.0 == last {
                                b.0 = all;
                            }
                        }
                    }
                }
                for v in x.env.values_mut() {
                    *v = replace(v, last, all);
                }
                if let Some(v) = &x.ret {
                    x.ret = Some(replace(v, last, all));
                }
            }
        }
        Ok(Some(x))
    }
    /// Replaces a loop that ends at the first item from `start` on for which `go` fails, or behind
    /// the last item: the position where it ends is a function of `go`, `start` and the number of items.
    #[allow(clippy::too_many_arguments)]
    fn search(&mut self, fi: &Rc<FnInfo>, h: usize, s0: &State, round: State, depth: usize, cells: &[Cell], roles: &[Role], havoc: &[N], (start, index, n): (N, N, N), go: N) -> R<Option<State>> {
        // obligations of an arbitrary round
        self.turn(fi, h, round, depth, false)?;
        let f = Fold { acc: go, index, template: go };
        let k = self.d.folds.iter().position(|x| *x == f).unwrap_or_else(|| {
            self.d.folds.push(f);
            self.d.folds.len() - 1
        });
        let t = match self.d.n[index as usize].clone() {
            n if n.k == K::Zext => self.d.ty(n.a[0]),
            n => n.t,
        };
        let j = self.callnode(&format!("first_{}", k), t, vec![start, n]);
        let j = if t.bits() < 64 { self.d.mk(K::Zext, T::I(64), &[j], 0) } else { j };
        let after: Vec<N> = havoc.iter().map(|&x| self.fresh(self.d.ty(x))).collect();
        let low = self.d.mk(K::Ule, T::I(1), &[start, j], 0);
        let high = self.d.mk(K::Ule, T::I(1), &[j, n], 0);
        let mut s0 = s0.clone();
        for c in [low, high] {
            s0.guard = self.d.and(s0.guard, c);
            s0.trail.push(c);
        }
        let end = self.d.mk(K::Eq, T::I(1), &[j, n], 0);
        let within = self.d.mk(K::Ult, T::I(1), &[j, n], 0);
        let go = self.d.subst(go, &mut [(index, j)].into());
        let stop = self.d.not(go);
        let mut s = self.at_head(&s0, cells, roles, start, j, &after)?;
        for c in [within, stop] {
            s.guard = self.d.and(s.guard, c);
            s.trail.push(c);
        }
        let g1 = s.guard;
        let (found, back) = self.turn(fi, h, s, depth, false)?;
        if back.map_or(false, |b| self.d.cst(b.guard) != Some(0)) {
            return Err("the search goes on".into());
        }
        let mut s = self.at_head(&s0, cells, roles, start, n, &after)?;
        s.guard = self.d.and(s.guard, end);
        s.trail.push(end);
        let g2 = s.guard;
        let (none, back) = self.turn(fi, h, s, depth, false)?;
        if back.is_some() {
            return Err("the loop goes on".into());
        }
        // one of the two is the case
        let full = matches!((&found, &none), (Some(x), Some(y)) if x.guard == g1 && y.guard == g2);
        let mut r = self.merge(end, none, found)?;
        if full {
            r.as_mut().unwrap().guard = s0.guard;
        }
        Ok(r)
    }
    /// the state at the head of round k
    fn at_head(&mut self, s0: &State, cells: &[Cell], roles: &[Role], start: N, k: N, other: &[N]) -> R<State> {
        let mut s = s0.clone();
        for (i, c) in cells.iter().enumerate() {
            let v = match roles[i] {
                Role::Counter(init, step) => {
                    let t = self.d.ty(init);
                    if self.d.cst(start) != Some(0) {
                        // in terms of the position
                        let (Some(i), Some(a), Some(b), 64) = (self.linear(init), self.linear(start), self.linear(k), t.bits()) else {
                            return Err("counter of a loop that starts late".into());
                        };
                        let st = step as i64 as i128;
                        let v = self.build(&i.minus(&b, -st).minus(&a, st));
                        self.set_cell(&mut s, c, v);
                        continue;
                    }
                    let k = if t.bits() < 64 { self.d.mk(K::Extract, t, &[k], 0) } else { k };
                    let st = self.d.konst(t, step);
                    let o = self.d.mk(K::Mul, t, &[k, st], 0);
                    self.d.mk(K::Add, t, &[init, o], 0)
                }
                _ => other[i],
            };
            self.set_cell(&mut s, c, v);
        }
        Ok(s)
    }
    /// a value read through an address into the items, or through any address while exploring
    fn item(&mut self, s: &State, addr: N, ty: &Ty) -> R<Option<Val>> {
        let Some((items, _)) = self.d.items else { return Ok(None) };
        let addr = self.settled(s, addr);
        if let (Some(c), 0) = (self.d.cst(addr), 0) {
            if c < ITEMS || c >= FNBASE {
                return Ok(None);
            }
        }
        let (mut off, mut base) = (vec![addr], 0u64);
        let mut terms: Vec<(N, u64)> = vec![];
        while let Some(x) = off.pop() {
            let nd = self.d.n[x as usize].clone();
            if let Some(c) = self.d.cst(x) {
                base = base.wrapping_add(c);
            } else if nd.k == K::Add {
                off.extend(&nd.a);
            } else if let (K::Mul, Some(c)) = (nd.k, nd.a.get(1).and_then(|&y| self.d.cst(y))) {
                terms.push((nd.a[0], c));
            } else if let (K::Shl, Some(c)) = (nd.k, nd.a.get(1).and_then(|&y| self.d.cst(y))) {
                terms.push((nd.a[0], 1 << c));
            } else {
                terms.push((x, 1));
            }
        }
        // the sequence, and the distance from its first item
        let tag = base.wrapping_add(1 << 55) & !((1 << 56) - 1);
        let away = base.wrapping_sub(tag) as i64;
        let code = (tag >> 56 & 15) as usize;
        let Some(&(name, bits, signed)) = ITEM_TYPES.get(code) else { return Ok(None) };
        let converted = tag & CONVERTED != 0;
        let (size, want) = if code == 0 || converted { (4, Ty::F32) } else { (bits / 8, Ty::Int(bits as u32)) };
        if tag & ITEMS != 0 && tag < FNBASE && *ty == want && away % size as i64 == 0 && terms.iter().all(|t| t.1 % size == 0) {
            let mut i = self.d.konst(T::I(64), (away / size as i64) as u64);
            for (x, c) in terms {
                let c = self.d.konst(T::I(64), (c as i64 / size as i64) as u64);
                let t = self.d.mk(K::Mul, T::I(64), &[x, c], 0);
                i = self.d.mk(K::Add, T::I(64), &[i, t], 0);
            }
            if let Some(l) = self.linear(i) {
                i = self.build(&l);
            }
            let ok = self.d.mk(K::Ult, T::I(1), &[i, items], 0);
            if self.known(s, ok) != Some(true) && !self.exploring {
                let bad = self.d.not(ok);
                let g = self.d.and(s.guard, bad);
                let mut trail = s.trail.clone();
                trail.push(bad);
                self.panic_at(g, trail, "memory access out of bounds".into());
            }
            return Ok(Some(Val::N(if code == 0 {
                self.callnode(name, T::F32, vec![i])
            } else {
                let n = self.callnode(name, T::I(bits as u8), vec![i]);
                if converted { self.d.mk(if signed { K::SiToFp } else { K::UiToFp }, T::F32, &[n], 0) } else { n }
            })));
        }
        if self.exploring && self.d.k(addr) != K::Ite && is_scalar(ty) {
            let t = dt(ty)?;
            return Ok(Some(Val::N(self.callnode("any_item", t, vec![addr]))));
        }
        Ok(None)
    }
    fn sub(
        &mut self,
        fi: &Rc<FnInfo>,
        from: usize,
        to: usize,
        mut s: State,
        stop: usize,
        counts: &mut Vec<usize>,
        depth: usize,
    ) -> R<Option<State>> {
        if self.d.cst(s.guard) == Some(0) {
            return Ok(None);
        }
        self.arrive(fi, from, to, &mut s)?;
        self.region(fi, to, s, stop, counts, depth)
    }
    /// the value of a condition the guard decides
    fn known(&mut self, s: &State, c: N) -> Option<bool> {
        if let Some(k) = self.d.cst(c) {
            return Some(k == 1);
        }
        let nc = self.d.not(c);
        // conjuncts of the path conditions
        let mut todo: Vec<(N, u32)> = s.trail.iter().rev().map(|&t| (t, 0)).collect();
        while let Some((t, depth)) = todo.pop() {
            if t == c {
                return Some(true);
            }
            if t == nc {
                return Some(false);
            }
            if depth == 4 {
                continue;
            }
            let nd = &self.d.n[t as usize];
            if nd.k == K::And {
                todo.extend(nd.a.iter().map(|&x| (x, depth + 1)));
            } else if let Some(x) = self.d.is_not(t) {
                if self.d.k(x) == K::Or {
                    for y in self.d.n[x as usize].a.clone() {
                        let y = self.d.not(y);
                        todo.push((y, depth + 1));
                    }
                }
            }
        }
        if self.d.items.is_some() {
            return self.known_count(s, c);
        }
        None
    }
    /// comparisons of counters: sums of constants and multiples of narrow unsigned integers
    fn known_count(&mut self, s: &State, c: N) -> Option<bool> {
        if let Some(x) = self.d.is_not(c) {
            return self.known_count(s, x).map(|b| !b);
        }
        let nd = self.d.n[c as usize].clone();
        if !matches!(nd.k, K::Eq | K::Ult | K::Ule) {
            return None;
        }
        let (a, b) = (self.linear(nd.a[0])?, self.linear(nd.a[1])?);
        let d = a.minus(&b, 1);
        if d.c.is_empty() && (nd.k == K::Eq || (self.fits(&a) && self.fits(&b))) {
            let m = if self.d.ty(nd.a[0]).bits() == 64 { d.k.rem_euclid(1 << 64) } else { d.k };
            return Some(match nd.k {
                K::Eq => m == 0,
                K::Ult => d.k < 0,
                _ => d.k <= 0,
            });
        }
        let mut facts: Vec<Lin> = vec![];
        let mut todo: Vec<(N, u32)> = s.trail.iter().map(|&t| (t, 0)).collect();
        while let Some((t, depth)) = todo.pop() {
            let (pos, x) = match self.d.is_not(t) {
                Some(x) => (false, x),
                None => (true, t),
            };
            let nd = self.d.n[x as usize].clone();
            match (nd.k, pos) {
                (K::And, true) if depth < 6 => todo.extend(nd.a.iter().map(|&x| (x, depth + 1))),
                (K::Or, false) if depth < 6 => {
                    for y in nd.a {
                        let y = self.d.not(y);
                        todo.push((y, depth + 1));
                    }
                }
                (K::Eq, false) | (K::Ult, _) | (K::Ule, _) => {
                    let (Some(p), Some(q)) = (self.linear(nd.a[0]), self.linear(nd.a[1])) else { continue };
                    if !self.fits(&p) || !self.fits(&q) {
                        continue;
                    }
                    let mut f = match (nd.k, pos) {
                        (K::Eq, _) if q.c.is_empty() && q.k == 0 => p,
                        (K::Eq, _) => continue,
                        (_, true) => q.minus(&p, 1),
                        (_, false) => p.minus(&q, 1),
                    };
                    if nd.k == K::Eq || (nd.k == K::Ult) == pos {
                        f.k -= 1;
                    }
                    facts.push(f);
                }
                _ => {}
            }
        }
        // d > k or d < k from the ranges and at most one fact
        let above = |e: &Exec, d: &Lin, k: i128| -> bool {
            e.range(d).0 > k
                || facts.iter().any(|f| {
                    f.c.iter().any(|&(x, v)| match d.c.iter().find(|y| y.0 == x) {
                        Some(y) if y.1 % v == 0 && y.1 / v > 0 => e.range(&d.minus(f, y.1 / v)).0 > k,
                        _ => false,
                    })
                })
        };
        let m = Lin { c: vec![], k: 0 }.minus(&d, 1);
        let (fa, fb) = (self.fits(&a), self.fits(&b));
        match nd.k {
            K::Eq if self.range(&d).0 > -(1 << 64) && self.range(&d).1 < 1 << 64 && (above(self, &d, 0) || above(self, &m, 0)) => Some(false),
            K::Ult if fa && fb && above(self, &m, 0) => Some(true),
            K::Ult if fa && fb && above(self, &d, -1) => Some(false),
            K::Ule if fa && fb && above(self, &m, -1) => Some(true),
            K::Ule if fa && fb && above(self, &d, 0) => Some(false),
            _ => None,
        }
    }
    fn linear(&self, n: N) -> Option<Lin> {
        let nd = &self.d.n[n as usize];
        if nd.t.is_f() {
            return None;
        }
        let w = nd.t.bits();
        Some(match nd.k {
            K::Const => Lin { c: vec![], k: if w == 64 && nd.imm >> 63 == 1 { nd.imm as i64 as i128 } else { nd.imm as i128 } },
            K::Zext if self.d.ty(nd.a[0]).bits() <= 32 => Lin { c: vec![(nd.a[0], 1)], k: 0 },
            K::Add if w == 64 => {
                let (a, b) = (self.linear(nd.a[0])?, self.linear(nd.a[1])?);
                a.minus(&b, -1)
            }
            K::Sub if w == 64 => {
                let (a, b) = (self.linear(nd.a[0])?, self.linear(nd.a[1])?);
                a.minus(&b, 1)
            }
            K::Mul if w == 64 => {
                let k = self.linear(nd.a[1])?;
                if !k.c.is_empty() || k.k.abs() > 1 << 40 {
                    return None;
                }
                Lin { c: vec![], k: 0 }.minus(&self.linear(nd.a[0])?, -k.k)
            }
            K::LShr | K::AShr if w == 64 => {
                let k = self.d.cst(nd.a[1])?;
                let mut l = self.linear(nd.a[0])?;
                let d = 1i128 << k.min(41);
                if k > 40 || !self.fits(&l) || self.range(&l).1 >> 63 != 0 || l.k % d != 0 || l.c.iter().any(|x| x.1 % d != 0) {
                    return None;
                }
                l.k /= d;
                l.c.iter_mut().for_each(|x| x.1 /= d);
                l
            }
            K::Shl if w == 64 => {
                let k = self.d.cst(nd.a[1])?;
                if k > 40 {
                    return None;
                }
                Lin { c: vec![], k: 0 }.minus(&self.linear(nd.a[0])?, -(1 << k))
            }
            _ if w <= 32 => Lin { c: vec![(n, 1)], k: 0 },
            _ => return None,
        })
    }
    fn range(&self, l: &Lin) -> (i128, i128) {
        l.c.iter().fold((l.k, l.k), |(a, b), &(x, v)| {
            let m = mask(self.d.ty(x).bits()) as i128 * v;
            (a + m.min(0), b + m.max(0))
        })
    }
    /// the sum is the value of its term: nothing wraps around
    fn fits(&self, l: &Lin) -> bool {
        let r = self.range(l);
        r.0 >= 0 && r.1 < 1 << 64
    }
    /// the value where the conditions of the path decide between its alternatives
    fn settled(&mut self, s: &State, mut n: N) -> N {
        while self.d.k(n) == K::Ite {
            let a = self.d.n[n as usize].a.clone();
            match self.known(s, a[0]) {
                Some(true) => n = a[1],
                Some(false) => n = a[2],
                None => break,
            }
        }
        n
    }
    #[allow(clippy::too_many_arguments)]
    fn fork(
        &mut self,
        fi: &Rc<FnInfo>,
        cur: usize,
        c: N,
        ta: usize,
        tb: usize,
        mut s: State,
        _stop: usize,
        counts: &mut Vec<usize>,
        depth: usize,
    ) -> R<Next> {
        if let Some(k) = self.known(&s, c) {
            let to = if k { ta } else { tb };
            self.arrive(fi, cur, to, &mut s)?;
            return Ok(Next::Go(s, to));
        }
        counts[cur] += 1;
        if counts[cur] > self.max_unroll {
            counts[cur] -= 1;
            self.panics.push((s.guard, format!("loop exceeds {} iterations in {}", self.max_unroll, fi.f.pretty), s.trail.clone()));
            return Ok(Next::Done(None));
        }
        let join = fi.ipd[cur].unwrap_or(EXIT);
        let g = s.guard;
        let nc = self.d.not(c);
        let ga = self.d.and(g, c);
        let gb = self.d.and(g, nc);
        let mut s2 = s.clone();
        s.guard = ga;
        s.trail.push(c);
        s2.guard = gb;
        s2.trail.push(nc);
        let r1 = self.sub(fi, cur, ta, s, join, counts, depth)?;
        let r2 = self.sub(fi, cur, tb, s2, join, counts, depth)?;
        counts[cur] -= 1;
        let full = matches!((&r1, &r2), (Some(x), Some(y)) if x.guard == ga && y.guard == gb);
        let mut r = self.merge(c, r1, r2)?;
        if full {
            r.as_mut().unwrap().guard = g;
        }
        Ok(match r {
            None => Next::Done(None),
            Some(x) => {
                if join == EXIT {
                    Next::Done(Some(x))
                } else {
                    Next::Go(x, join)
                }
            }
        })
    }
    #[allow(clippy::too_many_arguments)]
    fn switch(
        &mut self,
        fi: &Rc<FnInfo>,
        cur: usize,
        x: N,
        cases: &[(N, usize)],
        def: usize,
        mut s: State,
        _stop: usize,
        counts: &mut Vec<usize>,
        depth: usize,
    ) -> R<Next> {
        if let Some(k) = self.d.cst(x) {
            let to = cases.iter().find(|c| self.d.cst(c.0) == Some(k)).map_or(def, |c| c.1);
            self.arrive(fi, cur, to, &mut s)?;
            return Ok(Next::Go(s, to));
        }
        counts[cur] += 1;
        if counts[cur] > self.max_unroll {
            counts[cur] -= 1;
            self.panics.push((s.guard, format!("loop exceeds {} iterations in {}", self.max_unroll, fi.f.pretty), s.trail.clone()));
            return Ok(Next::Done(None));
        }
        let join = fi.ipd[cur].unwrap_or(EXIT);
        let g = s.guard;
        let mut rest = g;
        let mut parts: Vec<(N, Option<State>)> = vec![];
        for (k, to) in cases {
            let c = self.d.mk(K::Eq, T::I(1), &[x, *k], 0);
            let gc = self.d.and(rest, c);
            let nc = self.d.not(c);
            rest = self.d.and(rest, nc);
            let mut t = s.clone();
            s.trail.push(nc);
            t.guard = gc;
            t.trail.push(c);
            let r = self.sub(fi, cur, *to, t, join, counts, depth)?;
            parts.push((c, r));
        }
        s.guard = rest;
        let mut acc = self.sub(fi, cur, def, s, join, counts, depth)?;
        for (c, r) in parts.into_iter().rev() {
            acc = self.merge(c, r, acc)?;
        }
        counts[cur] -= 1;
        Ok(match acc {
            None => Next::Done(None),
            Some(x) => {
                if join == EXIT {
                    Next::Done(Some(x))
                } else {
                    Next::Go(x, join)
                }
            }
        })
    }
    fn fsub(&mut self, t: T, a: N, b: N) -> N {
        let nb = self.d.mk(K::FNeg, t, &[b], 0);
        self.d.mk(K::FAdd, t, &[a, nb], 0)
    }
    fn panic_at(&mut self, g: N, trail: Vec<N>, msg: String) {
        self.panics.push((g, msg, trail));
    }
    fn step(&mut self, f: &Rc<Func>, mut s: State, dst: Option<&Rc<str>>, ins: &Ins, depth: usize) -> R<Option<State>> {
        let m = f.module;
        let v: Val = match ins {
            Ins::Alloca(t, n) => {
                let a = self.new_alloc(&mut s, t.size() * n);
                Val::N(self.d.konst(T::I(64), a))
            }
            Ins::Load(t, p) => {
                let a = self.opn(&mut s, m, &Ty::Ptr, p)?;
                let sg = self.with_globals(&mut s, a);
                if sg {
                    self.load_global(a, t)?
                } else {
                    self.load(&s, a, t)?
                }
            }
            Ins::Store(t, x, p) => {
                let v = self.op(&mut s, m, t, x)?;
                let a = self.opn(&mut s, m, &Ty::Ptr, p)?;
                self.store(&mut s, a, t, &v)?;
                return Ok(Some(s));
            }
            Ins::Gep(t, b, ix) => {
                let base = self.op(&mut s, m, &Ty::Ptr, b)?;
                self.gep(&mut s, m, t, base, ix)?
            }
            Ins::Bin(op, t, a, b) => {
                let ty = dt(t)?;
                let x = self.opn(&mut s, m, t, a)?;
                let y = self.opn(&mut s, m, t, b)?;
                let k = match op.as_str() {
                    "add" => K::Add,
                    "sub" => K::Sub,
                    "mul" => K::Mul,
                    "udiv" => K::UDiv,
                    "sdiv" => K::SDiv,
                    "urem" => K::URem,
                    "srem" => K::SRem,
                    "and" => K::And,
                    "or" => K::Or,
                    "xor" => K::Xor,
                    "shl" => K::Shl,
                    "lshr" => K::LShr,
                    "ashr" => K::AShr,
                    "fadd" => K::FAdd,
                    "fmul" => K::FMul,
                    "fdiv" => K::FDiv,
                    "frem" => K::FRem,
                    "fsub" => {
                        let r = self.fsub(ty, x, y);
                        if let Some(d) = dst {
                            s.env.insert(d.clone(), Val::N(r));
                        }
                        return Ok(Some(s));
                    }
                    _ => return Err(op.clone()),
                };
                Val::N(self.d.mk(k, ty, &[x, y], 0))
            }
            Ins::FNeg(t, a) => {
                let x = self.opn(&mut s, m, t, a)?;
                Val::N(self.d.mk(K::FNeg, dt(t)?, &[x], 0))
            }
            Ins::ICmp(p, t, a, b) => {
                let x = self.opn(&mut s, m, t, a)?;
                let y = self.opn(&mut s, m, t, b)?;
                let i1 = T::I(1);
                Val::N(match p.as_str() {
                    "eq" => self.d.mk(K::Eq, i1, &[x, y], 0),
                    "ne" => {
                        let e = self.d.mk(K::Eq, i1, &[x, y], 0);
                        self.d.not(e)
                    }
                    "ult" => self.d.mk(K::Ult, i1, &[x, y], 0),
                    "ule" => self.d.mk(K::Ule, i1, &[x, y], 0),
                    "ugt" => self.d.mk(K::Ult, i1, &[y, x], 0),
                    "uge" => self.d.mk(K::Ule, i1, &[y, x], 0),
                    "slt" => self.d.mk(K::Slt, i1, &[x, y], 0),
                    "sle" => self.d.mk(K::Sle, i1, &[x, y], 0),
                    "sgt" => self.d.mk(K::Slt, i1, &[y, x], 0),
                    "sge" => self.d.mk(K::Sle, i1, &[y, x], 0),
                    _ => return Err(p.clone()),
                })
            }
            Ins::FCmp(p, t, a, b) => {
                let x = self.opn(&mut s, m, t, a)?;
                let y = self.opn(&mut s, m, t, b)?;
                Val::N(self.fcmp(p, x, y)?)
            }
            Ins::Cast(op, t, a, t2) => {
                let x = self.opn(&mut s, m, t, a)?;
                let ty = dt(t2)?;
                Val::N(match op.as_str() {
                    "trunc" => self.d.mk(K::Extract, ty, &[x], 0),
                    "zext" => self.d.mk(K::Zext, ty, &[x], 0),
                    "sext" => self.d.mk(K::Sext, ty, &[x], 0),
                    "fptrunc" => self.d.mk(K::FpTrunc, ty, &[x], 0),
                    "fpext" => self.d.mk(K::FpExt, ty, &[x], 0),
                    "uitofp" => self.d.mk(K::UiToFp, ty, &[x], 0),
                    "sitofp" => self.d.mk(K::SiToFp, ty, &[x], 0),
                    "ptrtoint" | "inttoptr" | "bitcast" => self.conv(x, ty),
                    _ => return Err(op.clone()),
                })
            }
            Ins::Select(c, t, a, b) => {
                let c = self.opn(&mut s, m, &Ty::Int(1), c)?;
                let x = self.op(&mut s, m, t, a)?;
                let y = self.op(&mut s, m, t, b)?;
                self.merge_val(c, &x, &y)?
            }
            Ins::Extract(t, a, ix) => {
                let mut v = self.op(&mut s, m, t, a)?;
                for &i in ix {
                    v = match v {
                        Val::Agg(x) => x[i].clone(),
                        Val::Undef => Val::Undef,
                        _ => return Err("extractvalue".into()),
                    };
                }
                v
            }
            Ins::Insert(t, a, t2, b, ix) => {
                let v = self.op(&mut s, m, t, a)?;
                let x = self.op(&mut s, m, t2, b)?;
                self.insert(t, v, x, ix)?
            }
            Ins::Freeze(t, a) => self.op(&mut s, m, t, a)?,
            Ins::Phi(..) => return Ok(Some(s)),
            Ins::Unsupported(x) => return Err(format!("instruction {}", x)),
            Ins::Call(t, callee, args) => {
                let name: String = match callee {
                    Op::Glob(g) => g.to_string(),
                    o => {
                        let a = self.opn(&mut s, m, &Ty::Ptr, o)?;
                        match self.d.cst(a) {
                            Some(x) if x > FNBASE => self.fnaddr[((x - FNBASE) / 16 - 1) as usize].clone(),
                            _ => return Err("indirect call".into()),
                        }
                    }
                };
                if name.starts_with("llvm.") {
                    match self.intrinsic(&mut s, m, &name, t, args)? {
                        Some(v) => v,
                        None => return Ok(Some(s)),
                    }
                } else if let Some(md) = Model::of(self.m, &name) {
                    let mut a = vec![];
                    for (ty, o) in args {
                        a.push(self.opn(&mut s, m, ty, o)?);
                    }
                    let (x, v) = match self.model(s, md, &a, depth)? {
                        Some(x) => x,
                        None => return Ok(None),
                    };
                    s = x;
                    v
                } else {
                    let decl = self.m.decls.get(&name).cloned().ok_or_else(|| format!("unknown function {}", name))?;
                    if decl.noreturn {
                        let pretty = self.m.funcs.get(&name).map(|f| f.pretty.clone()).unwrap_or(name.clone());
                        self.panic_at(s.guard, s.trail.clone(), format!("{} in {}", last_ident(&pretty), f.pretty));
                        return Ok(None);
                    }
                    if name.starts_with("ref_") {
                        let mut a = vec![];
                        for (ty, o) in args {
                            a.push(self.opn(&mut s, m, ty, o)?);
                        }
                        match name.as_str() {
                            "ref_items" => {
                                let b = self.d.cst(a[1]).ok_or("bound of the items")?;
                                let b = f32::from_bits(b as u32) as f64;
                                if self.d.items.map_or(false, |x| x != (a[0], b)) {
                                    return Err("two sequences of items".into());
                                }
                                self.d.items = Some((a[0], b));
                                Val::N(self.d.konst(T::I(64), ITEMS))
                            }
                            "ref_items_of" | "ref_converted_of" => {
                                let code = self.d.cst(a[1]).ok_or("type of the items")?;
                                let b = if ITEM_TYPES[code as usize].1 < 32 { 65536.0 } else { f64::INFINITY };
                                if self.d.items.map_or(false, |x| x != (a[0], b)) {
                                    return Err("two sequences of items".into());
                                }
                                self.d.items = Some((a[0], b));
                                Val::N(self.d.konst(T::I(64), ITEMS + (code << 56) + if name == "ref_items_of" { 0 } else { CONVERTED }))
                            }
                            "ref_at" => {
                                // the words that hold the address a[2] move on by a[3] items
                                let (at, size) = (self.d.cst(a[0]).ok_or("address")?, self.d.cst(a[1]).ok_or("size")?);
                                let (id, off) = self.resolve(&s, at, size)?;
                                let first = self.d.cst(a[2]).ok_or("items")?;
                                let word = if first & CONVERTED != 0 { 4 } else { ITEM_TYPES[(first >> 56 & 15) as usize].1 / 8 };
                                let c = self.d.konst(T::I(64), word);
                                let o = self.d.mk(K::Mul, T::I(64), &[a[3], c], 0);
                                let to = self.d.mk(K::Add, T::I(64), &[a[2], o], 0);
                                for o in (off..off + size as usize).step_by(8) {
                                    if (0..8).all(|i| s.mem[id].bytes[o + i] == Some((a[2], i as u8))) {
                                        let mut al = (*s.mem[id]).clone();
                                        self.store_bytes(&mut al, o, to, 8);
                                        s.mem[id] = Rc::new(al);
                                    }
                                }
                                Val::N(self.d.konst(T::I(1), 1))
                            }
                            "ref_same" => {
                                let (p, q, size) = (self.d.cst(a[0]).ok_or("address")?, self.d.cst(a[1]).ok_or("address")?, self.d.cst(a[2]).ok_or("size")?);
                                let ((i, u), (j, v)) = (self.resolve(&s, p, size)?, self.resolve(&s, q, size)?);
                                Val::N(self.same_bytes(&s, (i, u), (j, v), size as usize))
                            }
                            "ref_of_atan2" => Val::N(self.of_call("fn_atan2", a[0], &[(a[1], a[2]), (a[3], a[4])])),
                            "ref_of_asin" => Val::N(self.of_call("fn_asin", a[0], &[(a[1], a[2])])),
                            _ => Val::N(self.callnode(&name, dt(t)?, a)),
                        }
                    } else if let Some(c) = self.summaries.get(&name).cloned() {
                        let mut a = vec![];
                        for (ty, o) in args {
                            a.push(self.opn(&mut s, m, ty, o)?);
                        }
                        Val::N(self.callnode(&c, dt(t)?, a))
                    } else {
                        let mut a = vec![];
                        for (ty, o) in args {
                            a.push(self.op(&mut s, m, ty, o)?);
                        }
                        match self.call(s, &name, a, depth + 1)? {
                            None => return Ok(None),
                            Some(mut x) => {
                                let r = x.ret.take().unwrap_or(Val::Undef);
                                s = x;
                                r
                            }
                        }
                    }
                }
            }
        };
        if let Some(d) = dst {
            s.env.insert(d.clone(), v);
        }
        Ok(Some(s))
    }
    fn fn_address(&mut self, name: &str) -> u64 {
        let i = self.fnaddr.iter().position(|x| x == name).unwrap_or_else(|| {
            self.fnaddr.push(name.to_string());
            self.fnaddr.len() - 1
        });
        FNBASE + 16 * (i as u64 + 1)
    }
    fn fn_named(&self, a: N) -> R<String> {
        match self.d.cst(a) {
            Some(x) if x > FNBASE => Ok(self.fnaddr[((x - FNBASE) / 16 - 1) as usize].clone()),
            _ => Err("indirect call".into()),
        }
    }
    fn read(&mut self, s: &mut State, a: N, t: &Ty) -> R<N> {
        let v = if self.with_globals(s, a) { self.load_global(a, t)? } else { self.load(s, a, t)? };
        self.node(v, t)
    }
    fn read_at(&mut self, s: &mut State, a: N, off: u64, t: &Ty) -> R<N> {
        let k = self.d.konst(T::I(64), off);
        let a = self.d.mk(K::Add, T::I(64), &[a, k], 0);
        self.read(s, a, t)
    }
    /// a formatter (core::fmt::Formatter: writer, its vtable, options) that writes to the sink
    fn formatter(&mut self, s: &mut State, opts: u64) -> R<N> {
        let f = self.new_alloc(s, 24);
        for (off, v) in [(0, self.sink), (8, self.sink + (1 << BASE)), (16, opts)] {
            let v = self.d.konst(T::I(64), v);
            self.store_at(s, f + off, &Ty::Ptr, &Val::N(v))?;
        }
        Ok(self.d.konst(T::I(64), f))
    }
    /// something unknown is written: what the sink holds afterwards and whether the writer
    /// failed are functions of what it held and of the operands
    fn written(&mut self, s: &mut State, what: &str, ops: &[N]) -> R<N> {
        let old = self.load_at(s, self.sink, &Ty::Int(64))?;
        let mut a = vec![self.node(old, &Ty::Int(64))?];
        a.extend_from_slice(ops);
        let new = self.callnode(what, T::I(64), a.clone());
        let fail = self.callnode(&format!("{}_fails", what), T::I(1), a);
        self.store_at(s, self.sink, &Ty::Int(64), &Val::N(new))?;
        Ok(fail)
    }
    fn write_text(&mut self, s: &mut State, p: N, n: N) -> R<N> {
        let n = self.d.cst(n).ok_or("text of unknown length written")?;
        let mut name = String::from("text_");
        for i in 0..n {
            let b = self.read_at(s, p, i, &Ty::Int(8))?;
            name += &format!("{:02x}", self.d.cst(b).ok_or("unknown text written")?);
        }
        if n == 0 {
            return Ok(self.d.fls());
        }
        self.written(s, &name, &[])
    }
    fn to_sink(&self, data: N) -> R<()> {
        if self.sink != 0 && self.d.cst(data) == Some(self.sink) {
            Ok(())
        } else {
            Err("formatting to an unknown writer".into())
        }
    }
    /// call by name, of a body or of a model
    fn invoke(&mut self, s: State, name: &str, a: &[N], depth: usize) -> R<Option<(State, Val)>> {
        if let Some(md) = Model::of(self.m, name) {
            return self.model(s, md, a, depth);
        }
        let v = a.iter().map(|&x| Val::N(x)).collect();
        Ok(self.call(s, name, v, depth + 1)?.map(|mut x| {
            let r = x.ret.take().unwrap_or(Val::Undef);
            (x, r)
        }))
    }
    /// core's formatting machinery and float parser
    fn model(&mut self, mut s: State, md: Model, a: &[N], depth: usize) -> R<Option<(State, Val)>> {
        let r = match md {
            Model::Str => {
                let p = self.callnode("str_pointer", T::I(64), a.to_vec());
                let n = self.callnode("str_length", T::I(64), a.to_vec());
                Val::Agg(Rc::new(vec![Val::N(p), Val::N(n)]))
            }
            Model::Parse => Val::N(self.callnode("f32_from_str", T::I(64), a.to_vec())),
            Model::Format => {
                let sink = self.new_alloc(&mut s, 8);
                let vt = self.new_alloc(&mut s, 48);
                let zero = self.d.konst(T::I(64), 0);
                self.store_at(&mut s, sink, &Ty::Int(64), &Val::N(zero))?;
                for (i, n) in ["", "", "", "sink_write_str", "sink_write_char", "sink_write_fmt"].iter().enumerate() {
                    let x = if n.is_empty() { 8 } else { self.fn_address(n) };
                    let x = self.d.konst(T::I(64), x);
                    self.store_at(&mut s, vt + 8 * i as u64, &Ty::Ptr, &Val::N(x))?;
                }
                self.sink = sink;
                let f = self.formatter(&mut s, DEFAULT_OPTIONS)?;
                let name = self.fn_named(a[1])?;
                let (mut x, v) = match self.invoke(s, &name, &[a[0], f], depth)? {
                    Some(x) => x,
                    None => return Ok(None),
                };
                let fail = self.node(v, &Ty::Int(1))?;
                let fail = self.d.mk(K::Zext, T::I(64), &[fail], 0);
                let text = self.load_at(&x, sink, &Ty::Int(64))?;
                let text = self.node(text, &Ty::Int(64))?;
                s = {
                    x.ret = None;
                    x
                };
                Val::N(self.callnode("formatted", T::I(64), vec![text, fail]))
            }
            Model::FloatFmt(f64_, how) => {
                let to = self.read(&mut s, a[1], &Ty::Ptr)?;
                self.to_sink(to)?;
                let opts = self.read_at(&mut s, a[1], 16, &Ty::Int(64))?;
                let x = self.read(&mut s, a[0], if f64_ { &Ty::F64 } else { &Ty::F32 })?;
                let name = format!("{}_{}", if f64_ { "f64" } else { "f32" }, how);
                Val::N(self.written(&mut s, &name, &[opts, x])?)
            }
            Model::SinkStr => {
                self.to_sink(a[0])?;
                Val::N(self.write_text(&mut s, a[1], a[2])?)
            }
            Model::WriteStr => {
                let to = self.read(&mut s, a[0], &Ty::Ptr)?;
                self.to_sink(to)?;
                Val::N(self.write_text(&mut s, a[1], a[2])?)
            }
            Model::Write => {
                // core::fmt::write, see the encoding at core::fmt::Arguments
                self.to_sink(a[0])?;
                let (t, args) = (a[2], a[3]);
                let tail = self.d.cst(args).ok_or("unknown format arguments")?;
                if tail & 1 == 1 {
                    let n = self.d.konst(T::I(64), tail >> 1);
                    let r = self.write_text(&mut s, t, n)?;
                    return Ok(Some((s, Val::N(r))));
                }
                let mut failed = self.d.fls();
                let (mut at, mut arg) = (0u64, 0u64);
                loop {
                    let byte = |e: &mut Self, s: &mut State, k: u64| -> R<u64> {
                        let b = e.read_at(s, t, k, &Ty::Int(8))?;
                        Ok(e.d.cst(b).ok_or("unknown format template")?)
                    };
                    let n = byte(self, &mut s, at)?;
                    at += 1;
                    if n == 0 {
                        break;
                    }
                    let old = s.clone();
                    let fail = if n <= 0x80 {
                        let mut len = n;
                        if n == 0x80 {
                            len = byte(self, &mut s, at)? | byte(self, &mut s, at + 1)? << 8;
                            at += 2;
                        }
                        let k = self.d.konst(T::I(64), at);
                        let p = self.d.mk(K::Add, T::I(64), &[t, k], 0);
                        let l = self.d.konst(T::I(64), len);
                        at += len;
                        self.write_text(&mut s, p, l)?
                    } else {
                        let (mut flags, mut width, mut prec) = (DEFAULT_OPTIONS & 0xffff_ffff, 0, 0);
                        let mut get = |e: &mut Self, s: &mut State, k: u64| -> R<u64> {
                            let mut v = 0;
                            for i in 0..k {
                                v |= byte(e, s, at + i)? << (8 * i);
                            }
                            at += k;
                            Ok(v)
                        };
                        if n & 0x30 != 0 {
                            return Err("format width or precision from an argument".into());
                        }
                        if n & 1 != 0 {
                            flags = get(self, &mut s, 4)?;
                        }
                        if n & 2 != 0 {
                            width = get(self, &mut s, 2)?;
                        }
                        if n & 4 != 0 {
                            prec = get(self, &mut s, 2)?;
                        }
                        if n & 8 != 0 {
                            arg = get(self, &mut s, 2)?;
                        }
                        let f = self.formatter(&mut s, flags | width << 32 | prec << 48)?;
                        let v = self.read_at(&mut s, args, 16 * arg, &Ty::Ptr)?;
                        let g = self.read_at(&mut s, args, 16 * arg + 8, &Ty::Ptr)?;
                        arg += 1;
                        let name = self.fn_named(g)?;
                        let (x, v) = match self.invoke(s, &name, &[v, f], depth)? {
                            Some(x) => x,
                            None => return Ok(None),
                        };
                        s = x;
                        self.node(v, &Ty::Int(1))?
                    };
                    // nothing is written after a failure
                    if self.d.cst(failed) != Some(0) {
                        let (was, now) = (self.load_at(&old, self.sink, &Ty::Int(64))?, self.load_at(&s, self.sink, &Ty::Int(64))?);
                        let v = self.merge_val(failed, &was, &now)?;
                        self.store_at(&mut s, self.sink, &Ty::Int(64), &v)?;
                    }
                    failed = self.d.ite(failed, failed, fail);
                }
                Val::N(failed)
            }
        };
        Ok(Some((s, r)))
    }
    fn with_globals(&self, _s: &mut State, a: N) -> bool {
        matches!(self.d.cst(a), Some(x) if (x >> BASE) >= (1 << 20) && x < ITEMS)
    }
    fn load_global(&mut self, a: N, t: &Ty) -> R<Val> {
        let x = self.d.cst(a).unwrap();
        let id = (x >> BASE) as usize - (1 << 20);
        let tmp = State { env: HashMap::new(), mem: vec![self.ginit[id].clone()], guard: 0, trail: vec![], ret: None };
        self.load_at(&tmp, (1 << BASE) | (x & ((1 << BASE) - 1)), t)
    }
    /// whether `r` is a call of `f` whose arguments are within the given distances of the given values
    fn of_call(&mut self, f: &str, r: N, args: &[(N, N)]) -> N {
        let nd = self.d.n[r as usize].clone();
        match nd.k {
            K::Ite => {
                let a = self.of_call(f, nd.a[1], args);
                let b = self.of_call(f, nd.a[2], args);
                self.d.ite(nd.a[0], a, b)
            }
            K::Call if self.d.calls[nd.imm as usize] == f && nd.a.len() == args.len() => {
                let mut c = self.d.tru();
                for (&x, &(v, e)) in nd.a.iter().zip(args) {
                    let x = self.d.mk(K::FpExt, T::F64, &[x], 0);
                    let v = self.d.mk(K::FNeg, T::F64, &[v], 0);
                    let x = self.d.mk(K::FAdd, T::F64, &[x, v], 0);
                    let l = self.d.mk(K::FNeg, T::F64, &[e], 0);
                    for (p, q) in [(x, e), (l, x)] {
                        let y = self.d.mk(K::FOle, T::I(1), &[p, q], 0);
                        c = self.d.and(c, y);
                    }
                }
                c
            }
            _ => self.d.fls(),
        }
    }
    pub fn callnode(&mut self, name: &str, t: T, a: Vec<N>) -> N {
        let i = match self.d.calls.iter().position(|x| x == name) {
            Some(i) => i,
            None => {
                self.d.calls.push(name.to_string());
                self.d.calls.len() - 1
            }
        };
        self.d.intern(K::Call, t, a, i as u64)
    }
    fn insert(&mut self, t: &Ty, v: Val, x: Val, ix: &[usize]) -> R<Val> {
        if ix.is_empty() {
            return Ok(x);
        }
        let mut e: Vec<Val> = match v {
            Val::Agg(r) => (*r).clone(),
            Val::Undef => (0..t.count()).map(|i| self.undef(&t.elem(i))).collect(),
            _ => return Err("insertvalue".into()),
        };
        let old = e[ix[0]].clone();
        e[ix[0]] = self.insert(&t.elem(ix[0]), old, x, &ix[1..])?;
        Ok(Val::Agg(Rc::new(e)))
    }
    fn fcmp(&mut self, p: &str, x: N, y: N) -> R<N> {
        let i1 = T::I(1);
        let d = &mut self.d;
        let olt = |d: &mut Dag, a, b| d.mk(K::FOlt, i1, &[a, b], 0);
        let ole = |d: &mut Dag, a, b| d.mk(K::FOle, i1, &[a, b], 0);
        let oeq = |d: &mut Dag, a, b| d.mk(K::FOeq, i1, &[a, b], 0);
        Ok(match p {
            "oeq" => oeq(d, x, y),
            "une" => {
                let e = oeq(d, x, y);
                d.not(e)
            }
            "olt" => olt(d, x, y),
            "ole" => ole(d, x, y),
            "ogt" => olt(d, y, x),
            "oge" => ole(d, y, x),
            "ult" => {
                let e = ole(d, y, x);
                d.not(e)
            }
            "ule" => {
                let e = olt(d, y, x);
                d.not(e)
            }
            "ugt" => {
                let e = ole(d, x, y);
                d.not(e)
            }
            "uge" => {
                let e = olt(d, x, y);
                d.not(e)
            }
            "one" => {
                let a = olt(d, x, y);
                let b = olt(d, y, x);
                d.or(a, b)
            }
            "ueq" => {
                let a = olt(d, x, y);
                let b = olt(d, y, x);
                let o = d.or(a, b);
                d.not(o)
            }
            "ord" | "uno" => {
                let a = oeq(d, x, x);
                let b = oeq(d, y, y);
                let o = d.and(a, b);
                if p == "ord" {
                    o
                } else {
                    d.not(o)
                }
            }
            "true" => d.tru(),
            "false" => d.fls(),
            _ => return Err(p.to_string()),
        })
    }
    fn memcpy(&mut self, s: &mut State, dst: N, src: N, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if n == 4 || n == 2 {
            if self.d.items.is_some() && self.d.cst(src).map_or(true, |a| a >= ITEMS) {
                let t = if n == 4 { Ty::F32 } else { Ty::Int(16) };
                let v = self.load(s, src, &t)?;
                return self.store(s, dst, &t, &v);
            }
        }
        let (d, sa) = match (self.d.cst(dst), self.d.cst(src)) {
            (Some(d), Some(x)) => (d, x),
            _ => {
                // symbolic choice of object: bytewise through the generic path
                for i in 0..n {
                    let k = self.d.konst(T::I(64), i);
                    let a = self.d.mk(K::Add, T::I(64), &[src, k], 0);
                    let b = self.d.mk(K::Add, T::I(64), &[dst, k], 0);
                    let v = self.load(s, a, &Ty::Int(8))?;
                    self.store(s, b, &Ty::Int(8), &v)?;
                }
                return Ok(());
            }
        };
        let bytes = if (sa >> BASE) >= (1 << 20) {
            let id = (sa >> BASE) as usize - (1 << 20);
            let o = (sa & ((1 << BASE) - 1)) as usize;
            self.ginit[id].bytes[o..o + n as usize].to_vec()
        } else {
            let (id, o) = self.resolve(s, sa, n)?;
            s.mem[id].bytes[o..o + n as usize].to_vec()
        };
        let (id, o) = self.resolve(s, d, n)?;
        let mut al = (*s.mem[id]).clone();
        al.bytes[o..o + n as usize].copy_from_slice(&bytes);
        s.mem[id] = Rc::new(al);
        Ok(())
    }
    fn intrinsic(&mut self, s: &mut State, m: usize, name: &str, rt: &Ty, args: &[(Ty, Op)]) -> R<Option<Val>> {
        let part = |i: usize| name.split('.').nth(i).unwrap_or("");
        let base = part(1);
        if matches!(base, "lifetime" | "dbg" | "assume" | "experimental" | "donothing" | "prefetch") {
            return Ok(None);
        }
        let mut a = vec![];
        for (t, o) in args {
            a.push(self.opn(s, m, t, o)?);
        }
        if base == "memcpy" || base == "memmove" {
            let n = self.d.cst(a[2]).ok_or("memcpy length")?;
            self.memcpy(s, a[0], a[1], n)?;
            return Ok(None);
        }
        if base == "memset" {
            let n = self.d.cst(a[2]).ok_or("memset length")?;
            for i in 0..n {
                let k = self.d.konst(T::I(64), i);
                let p = self.d.mk(K::Add, T::I(64), &[a[0], k], 0);
                self.store(s, p, &Ty::Int(8), &Val::N(a[1]))?;
            }
            return Ok(None);
        }
        let at = args.first().map(|x| dt(&x.0)).transpose()?.unwrap_or(T::I(1));
        let w = at.bits();
        let t1 = T::I(1);
        let r = match base {
            "expect" => Val::N(a[0]),
            "fabs" => Val::N(self.d.mk(K::FAbs, at, &[a[0]], 0)),
            "copysign" => Val::N(self.d.mk(K::FCopysign, at, &[a[0], a[1]], 0)),
            "sqrt" => Val::N(self.d.mk(K::FSqrt, at, &[a[0]], 0)),
            "fmuladd" | "fma" => return Err("fma".into()),
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" => {
                let (x, y) = (a[0], a[1]);
                let mn = base.starts_with("min");
                let lt = if mn {
                    self.d.mk(K::FOlt, t1, &[y, x], 0)
                } else {
                    self.d.mk(K::FOlt, t1, &[x, y], 0)
                };
                let mut sel = self.d.ite(lt, y, x);
                let fab = |s: &Self, n: N| s.d.n[n as usize].k == K::FAbs;
                if (part(3) == "nsz" || base == "minnum" || base == "maxnum") && !(fab(self, x) && fab(self, y)) {
                    // of two zeros, either one
                    let z = self.d.konst(at, 0);
                    let xz = self.d.mk(K::FOeq, t1, &[x, z], 0);
                    let yz = self.d.mk(K::FOeq, t1, &[y, z], 0);
                    let bz = self.d.mk(K::And, t1, &[xz, yz], 0);
                    let c = self.callnode("any_sign", t1, vec![x, y]);
                    let c = self.d.mk(K::And, t1, &[bz, c], 0);
                    sel = self.d.ite(c, y, sel);
                }
                let xn = self.d.mk(K::FOeq, t1, &[x, x], 0);
                let yn = self.d.mk(K::FOeq, t1, &[y, y], 0);
                if base == "minimum" || base == "maximum" {
                    let r = self.d.ite(yn, sel, y);
                    Val::N(self.d.ite(xn, r, x))
                } else {
                    // NaN operand: the other one
                    let r = self.d.ite(yn, sel, x);
                    Val::N(self.d.ite(xn, r, y))
                }
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" if part(2) == "f32" => {
                Val::N(self.callnode(&format!("math_{}", base), at, vec![a[0]]))
            }
            "fptosi" => Val::N(self.d.mk(K::FpToSi, dt(rt)?, &[a[0]], 0)),
            "fptoui" => Val::N(self.d.mk(K::FpToUi, dt(rt)?, &[a[0]], 0)),
            "ctlz" => Val::N(self.d.mk(K::Ctlz, at, &[a[0]], 0)),
            "cttz" => Val::N(self.d.mk(K::Cttz, at, &[a[0]], 0)),
            "ctpop" => Val::N(self.d.mk(K::Ctpop, at, &[a[0]], 0)),
            "abs" => {
                let z = self.d.konst(at, 0);
                let neg = self.d.mk(K::Slt, t1, &[a[0], z], 0);
                let n = self.d.mk(K::Sub, at, &[z, a[0]], 0);
                Val::N(self.d.ite(neg, n, a[0]))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let k = if base.starts_with('u') { K::Ult } else { K::Slt };
                let c = self.d.mk(k, t1, &[a[0], a[1]], 0);
                Val::N(if base.ends_with("min") { self.d.ite(c, a[0], a[1]) } else { self.d.ite(c, a[1], a[0]) })
            }
            "ucmp" | "scmp" => {
                let k = if base == "ucmp" { K::Ult } else { K::Slt };
                let ty = dt(rt)?;
                let lt = self.d.mk(k, t1, &[a[0], a[1]], 0);
                let gt = self.d.mk(k, t1, &[a[1], a[0]], 0);
                let (m1, z, o) = (self.d.konst(ty, !0), self.d.konst(ty, 0), self.d.konst(ty, 1));
                let r = self.d.ite(gt, o, z);
                Val::N(self.d.ite(lt, m1, r))
            }
            "sadd" | "ssub" | "smul" | "uadd" | "usub" | "umul" => {
                let k = match &base[1..] {
                    "add" => K::Add,
                    "sub" => K::Sub,
                    _ => K::Mul,
                };
                let signed = base.starts_with('s');
                let (res, ovf, neg) = self.with_overflow(k, signed, at, a[0], a[1])?;
                if part(2) == "with" {
                    Val::Agg(Rc::new(vec![Val::N(res), Val::N(ovf)]))
                } else if part(2) == "sat" {
                    let (lo, hi) = if signed {
                        (1u64 << (w - 1), mask(w) >> 1)
                    } else {
                        (0, mask(w))
                    };
                    let (lo, hi) = (self.d.konst(at, lo), self.d.konst(at, hi));
                    let lim = self.d.ite(neg, lo, hi);
                    Val::N(self.d.ite(ovf, lim, res))
                } else {
                    return Err(name.to_string());
                }
            }
            "fshl" | "fshr" => {
                let c = self.d.cst(a[2]).ok_or("funnel shift")? % w as u64;
                let (l, r) = if base == "fshl" { (c, w as u64 - c) } else { (w as u64 - c, c) };
                let (lc, rc) = (self.d.konst(at, l), self.d.konst(at, r));
                let x = self.d.mk(K::Shl, at, &[a[0], lc], 0);
                let y = self.d.mk(K::LShr, at, &[a[1], rc], 0);
                Val::N(self.d.mk(K::Or, at, &[x, y], 0))
            }
            // what the optimiser knows at build time: nothing
            "is" if part(2) == "constant" => Val::N(self.d.fls()),
            "is" => {
                // llvm.is.fpclass
                let c = self.d.cst(a[1]).ok_or("fpclass")?;
                Val::N(self.fpclass(a[0], c)?)
            }
            "trap" | "ubsantrap" => {
                self.panics.push((s.guard, "trap".into(), s.trail.clone()));
                return Ok(None);
            }
            _ => return Err(format!("intrinsic {}", name)),
        };
        Ok(Some(r))
    }
    fn fpclass(&mut self, x: N, c: u64) -> R<N> {
        if self.d.ty(x) != T::F32 {
            return Err("fpclass f64".into());
        }
        let b = self.d.to_bits(x);
        let t = T::I(32);
        let t1 = T::I(1);
        let mut acc = self.d.fls();
        let ranges: [(u64, u64, u64); 10] = [
            (1, 0x7f80_0001, 0x7fbf_ffff),
            (2, 0x7fc0_0000, 0x7fff_ffff),
            (4, 0xff80_0000, 0xff80_0000),
            (8, 0x8080_0000, 0xff7f_ffff),
            (16, 0x8000_0001, 0x807f_ffff),
            (32, 0x8000_0000, 0x8000_0000),
            (64, 0, 0),
            (128, 1, 0x007f_ffff),
            (256, 0x0080_0000, 0x7f7f_ffff),
            (512, 0x7f80_0000, 0x7f80_0000),
        ];
        for (bit, lo, hi) in ranges {
            if c & bit == 0 {
                continue;
            }
            let mut add = vec![(lo, hi)];
            if bit <= 2 {
                add.push((lo | 0x8000_0000, hi | 0x8000_0000));
            }
            for (lo, hi) in add {
                let (l, h) = (self.d.konst(t, lo), self.d.konst(t, hi));
                let p = self.d.mk(K::Ule, t1, &[l, b], 0);
                let q = self.d.mk(K::Ule, t1, &[b, h], 0);
                let r = self.d.and(p, q);
                acc = self.d.or(acc, r);
            }
        }
        Ok(acc)
    }
    /// result, overflow flag, and whether the exact result is below the range
    fn with_overflow(&mut self, k: K, signed: bool, t: T, x: N, y: N) -> R<(N, N, N)> {
        let w = t.bits();
        let t1 = T::I(1);
        let res = self.d.mk(k, t, &[x, y], 0);
        let ext = if signed { K::Sext } else { K::Zext };
        if 2 * w <= 64 {
            let w2 = T::I((2 * w) as u8);
            let xe = self.d.mk(ext, w2, &[x], 0);
            let ye = self.d.mk(ext, w2, &[y], 0);
            let re = self.d.mk(k, w2, &[xe, ye], 0);
            // a product is the low half of the wide one, so that both share a multiplication
            let res = if k == K::Mul && w >= 16 && self.d.cst(x).is_none() && self.d.cst(y).is_none() { self.d.mk(K::Extract, t, &[re], 0) } else { res };
            let rr = self.d.mk(ext, w2, &[res], 0);
            let e = self.d.mk(K::Eq, t1, &[re, rr], 0);
            let ovf = self.d.not(e);
            let z = self.d.konst(w2, 0);
            let neg = self.d.mk(K::Slt, t1, &[re, z], 0);
            return Ok((res, ovf, neg));
        }
        // 64 bit
        let z = self.d.konst(t, 0);
        match (k, signed) {
            (K::Add, false) => {
                let o = self.d.mk(K::Ult, t1, &[res, x], 0);
                let f = self.d.fls();
                Ok((res, o, f))
            }
            (K::Sub, false) => {
                let o = self.d.mk(K::Ult, t1, &[x, y], 0);
                let f = self.d.tru();
                Ok((res, o, f))
            }
            (K::Mul, false) => {
                if let (Some(a), Some(b)) = (self.d.cst(x), self.d.cst(y)) {
                    let o = self.d.konst(t1, a.checked_mul(b).is_none() as u64);
                    let f = self.d.fls();
                    return Ok((res, o, f));
                }
                Err("64-bit umul overflow".into())
            }
            (K::Add, true) => {
                let rn = self.d.mk(K::Slt, t1, &[res, x], 0);
                let yn = self.d.mk(K::Slt, t1, &[y, z], 0);
                let o = self.d.mk(K::Xor, t1, &[rn, yn], 0);
                Ok((res, o, yn))
            }
            _ => Err("64-bit overflow operation".into()),
        }
    }
    /// symbolic arguments for a function with scalar parameters, some of them fixed; the result and
    /// the condition under which the function returns
    pub fn run_with(&mut self, name: &str, fixed: &[(usize, u64)]) -> R<(Val, N)> {
        let f = self.m.funcs.get(name).cloned().ok_or_else(|| format!("no function {}", name))?;
        let mut args = vec![];
        for (i, (t, n)) in f.params.iter().enumerate() {
            let ty = dt(t)?;
            let v = self.d.var(n, ty);
            args.push(Val::N(match fixed.iter().find(|x| x.0 == i) {
                Some(x) => self.d.konst(ty, x.1),
                None => v,
            }));
        }
        self.start(name, args)
    }
    pub fn run_on(&mut self, name: &str, args: &[N]) -> R<(Val, N)> {
        self.start(name, args.iter().map(|&n| Val::N(n)).collect())
    }
    fn start(&mut self, name: &str, args: Vec<Val>) -> R<(Val, N)> {
        let g = self.d.tru();
        let s = State { env: HashMap::new(), mem: vec![], guard: g, trail: vec![], ret: None };
        let r = self.call(s, name, args, 0)?;
        match r {
            Some(s) => Ok((s.ret.unwrap_or(Val::Undef), s.guard)),
            None => Ok((Val::Undef, self.d.fls())),
        }
    }
}

/// options of a formatter when none are given: fill ' ', alignment unset
const DEFAULT_OPTIONS: u64 = 0x6000_0020;

/// functions of core that contracts about text leave uninterpreted or that lead to them
enum Model {
    /// (specification) what a formatting function writes
    Format,
    /// (specification) some text
    Str,
    /// core::fmt::write
    Write,
    /// Formatter::write_str
    WriteStr,
    /// the writer's own write_str
    SinkStr,
    /// Display and so on of f32 and f64
    FloatFmt(bool, &'static str),
    /// f32::from_str
    Parse,
}
impl Model {
    fn of(m: &Module, name: &str) -> Option<Model> {
        match name {
            "ref_format" => return Some(Model::Format),
            "ref_str" => return Some(Model::Str),
            "sink_write_str" => return Some(Model::SinkStr),
            _ => {}
        }
        if m.funcs.contains_key(name) || !name.contains("4core3") {
            return None;
        }
        if name.ends_with("_4core3fmt5write") {
            return Some(Model::Write);
        }
        if name.ends_with("_4core3fmtNtB5_9Formatter9write_str") {
            return Some(Model::WriteStr);
        }
        for (wide, c) in [(false, 'f'), (true, 'd')] {
            if name.contains(&format!("_4core3fmt5float{}N", c)) {
                for (t, n) in [("7Display", "display"), ("8LowerExp", "lower_exp"), ("8UpperExp", "upper_exp"), ("5Debug", "debug")] {
                    if name.ends_with(&format!("{}3fmt", t)) {
                        return Some(Model::FloatFmt(wide, n));
                    }
                }
            }
        }
        (name.contains("_4core3num11float_parsefN") && name.ends_with("7FromStr8from_str")).then_some(Model::Parse)
    }
}

enum Next {
    Done(Option<State>),
    Go(State, usize),
}

/// the last identifier of a mangled name
fn last_ident(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    for i in (0..cs.len()).rev() {
        if cs[i].is_ascii_digit() {
            let mut j = i;
            while j > 0 && cs[j - 1].is_ascii_digit() {
                j -= 1;
            }
            let n: usize = cs[j..=i].iter().collect::<String>().parse().unwrap_or(0);
            if n > 0 && i + 1 + n <= cs.len() && n + 1 >= cs.len() - i - 1 {
                return cs[i + 1..i + 1 + n].iter().collect();
            }
        }
    }
    short(s)
}
pub fn short(s: &str) -> String {
    s.chars().take(160).collect()
}
