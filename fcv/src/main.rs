mod boxes;
mod dag;
mod exec;
mod ir;
mod poly;
mod reffn;
mod smt;
use dag::*;
use exec::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

/// condition under which the ite tree `n` equals the constant `c`
fn cond_eq(d: &mut Dag, n: N, c: u64, memo: &mut HashMap<N, N>) -> N {
    if let Some(&x) = memo.get(&n) {
        return x;
    }
    let nd = d.n[n as usize].clone();
    let r = match nd.k {
        K::Const => d.konst(T::I(1), (nd.imm == c) as u64),
        K::Ite => {
            let a = cond_eq(d, nd.a[1], c, memo);
            let b = cond_eq(d, nd.a[2], c, memo);
            d.ite(nd.a[0], a, b)
        }
        _ => {
            let k = d.konst(nd.t, c);
            d.mk(K::Eq, T::I(1), &[n, k], 0)
        }
    };
    memo.insert(n, r);
    r
}
fn leaves(d: &Dag, n: N, out: &mut Vec<u64>, seen: &mut std::collections::HashSet<N>) -> bool {
    if !seen.insert(n) {
        return true;
    }
    let nd = &d.n[n as usize];
    match nd.k {
        K::Const => {
            if !out.contains(&nd.imm) {
                out.push(nd.imm);
            }
            true
        }
        K::Ite => leaves(d, nd.a[1], out, seen) & leaves(d, nd.a[2], out, seen),
        _ => false,
    }
}

pub struct Goal {
    pub name: String,
    pub n: N,
    /// conditions implied by `n`, latest last
    pub trail: Vec<N>,
}

#[derive(Clone)]
pub struct Outcome {
    pub name: String,
    pub ok: bool,
    pub by: String,
    pub secs: f64,
    pub cex: Option<Vec<u64>>,
    pub note: String,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).max(2)
}
fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' { '\'' } else if c.is_control() { ' ' } else { c }).collect()
}

pub struct Spec {
    prop: String,
    vc: String,
    backends: Vec<String>,
    opts: HashMap<String, String>,
}

fn read_specs(path: &str) -> Vec<Spec> {
    std::fs::read_to_string(path)
        .expect("obligations file")
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| {
            let w: Vec<&str> = l.split_whitespace().collect();
            Spec {
                prop: w[0].into(),
                vc: w[1].into(),
                backends: w[2].split(',').map(|x| x.into()).collect(),
                opts: w[3..]
                    .iter()
                    .map(|x| match x.split_once('=') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (x.to_string(), String::new()),
                    })
                    .collect(),
            }
        })
        .collect()
}

fn goals(e: &mut Exec, vc: &str, specialise: &[(usize, u64)], panics: bool) -> Result<(Vec<Goal>, N), String> {
    let (v, returns) = e.run_with(vc, specialise)?;
    let r = match v {
        Val::N(n) => n,
        _ => e.d.konst(T::I(8), 1),
    };
    let mut gs = vec![];
    let mut ls = vec![];
    let complete = leaves(&e.d, r, &mut ls, &mut Default::default());
    ls.sort();
    for c in ls.into_iter().filter(|c| *c >= 16) {
        let n = cond_eq(&mut e.d, r, c, &mut HashMap::new());
        gs.push(Goal { name: format!("{}:post{}", vc, c - 16), n, trail: vec![] });
    }
    if !complete {
        let k = e.d.konst(T::I(8), 16);
        let lt = e.d.mk(K::Ult, T::I(1), &[r, k], 0);
        let n = e.d.not(lt);
        gs.push(Goal { name: format!("{}:post", vc), n, trail: vec![] });
    } else if gs.is_empty() {
        // every path that returns was simplified to a result below 16
        let n = e.d.fls();
        gs.push(Goal { name: format!("{}:post", vc), n, trail: vec![] });
    }
    if vc.ends_with("__panics") {
        // violated only where the function returns
        for g in gs.iter_mut() {
            g.n = e.d.and(g.n, returns);
        }
    } else if panics {
        let mut count: HashMap<String, usize> = HashMap::new();
        let mut seen: std::collections::HashSet<N> = Default::default();
        for (g, m, trail) in e.panics.clone() {
            if !seen.insert(g) {
                continue;
            }
            let c = count.entry(m.clone()).or_insert(0);
            *c += 1;
            gs.push(Goal { name: format!("{}:nopanic[{}]#{}", vc, m, c), n: g, trail });
        }
    }
    Ok((gs, r))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let mut m = ir::Module::default();
    for f in get("--ir").expect("--ir").split(',') {
        let t = std::fs::read_to_string(f).expect("IR file");
        if let Err(x) = ir::parse(&t, &mut m) {
            eprintln!("parse error in {}: {}", f, x);
            std::process::exit(3);
        }
    }
    if let Some(b) = get("--equiv") {
        equiv(&m, &b, &get("--tmp").unwrap_or("/tmp/fcv".into()), get("--timeout").and_then(|x| x.parse().ok()).unwrap_or(60.0), get("--cap").and_then(|x| x.parse().ok()).unwrap_or(1e9), get("--out"), get("--only"));
        return;
    }
    let specs = read_specs(&get("--spec").expect("--spec"));
    let prop = get("--prop");
    let only = get("--vc");
    let tmp = get("--tmp").unwrap_or("/tmp/fcv".into());
    let out = get("--out");
    let tl: f64 = get("--timeout").and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let _ = HOLDS.set(get("--holds").map_or(vec![], |x| x.split(',').map(|y| y.to_string()).collect()));
    let _cap: f64 = get("--cap").and_then(|x| x.parse().ok()).unwrap_or(1e9);
    let _thorough = get("--tier").map_or(false, |x| x == "thorough");
    let show = a.iter().any(|x| x == "--show");
    let _ = std::fs::create_dir_all(&tmp);
    let mut json = String::from("[");
    let mut first = true;
    for s in &specs {
        if prop.as_ref().map_or(false, |p| *p != s.prop) || only.as_ref().map_or(false, |v| *v != s.vc) {
            continue;
        }
        let t0 = Instant::now();
        let mut ex = Exec::new(&m);
        if s.opts.contains_key("upgrade") {
            ex.max_unroll = 12;
        }
        let mut lemmas = vec![];
        set_summaries(&mut ex, &m, s, &specs, &tmp, tl, &mut lemmas);
        let panics = s.opts.get("nopanic").map_or(true, |x| x != "0");
        let (status, mut outs): (String, Vec<Outcome>) = match instances(s) {
            Some(range) => run_instances(&m, &mut ex, s, range, panics, &tmp, tl),
            None => match goals(&mut ex, &s.vc, &[], panics) {
                Err(x) => (format!("unsupported: {}", x), vec![]),
                Ok((gs, r)) => {
                    if let Some(n) = get("--selftest") {
                        // random boxes and points for the enclosures of every obligation
                        let dims: Vec<usize> = (0..ex.d.vars.len()).map(|k| if k < boxes::NV { k } else { usize::MAX }).collect();
                        let ctx = boxes::Ctx { d: &ex.d, dims };
                        let start = boxes::initial(&ex.d, &[]);
                        let mut seed = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1u64) * 0x9e3779b97f4a7c15 | 1;
                        let (mut tot, mut bad) = (0, 0);
                        if s.backends.iter().any(|b| b == "poly") {
                            let mut t = (seed, 0, 0);
                            for g in &gs {
                                poly::prove(&ex.d, g.n, s.opts.contains_key("sums"), &format!("{}/selftest.smt2", tmp), Instant::now() + std::time::Duration::from_secs(60), Some(&mut t));
                            }
                            println!("selftest {}: {} values and facts hold, {} escapes", s.vc, t.1, t.2);
                            continue;
                        }
                        for g in &gs {
                            match boxes::selftest(&ctx, g.n, &start, &mut seed, n.parse().unwrap_or(1000), 12) {
                                Ok(k) => tot += k,
                                Err(e) => {
                                    bad += 1;
                                    println!("SELFTEST {} {}", g.name, e);
                                }
                            }
                        }
                        println!("selftest {}: {} values in their enclosures, {} escapes", s.vc, tot, bad);
                        continue;
                    }
                    if show {
                        println!("{}: {} nodes, result {}", s.vc, ex.d.n.len(), short(&ex.d.show(r, 6)));
                        if let Some(bx) = get("--box") {
                            let r: Vec<(u64, u64)> = bx.split(',').map(|p| { let (a, b) = p.split_once(':').unwrap_or((p, p)); (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap()) }).collect();
                            let dims: Vec<usize> = (0..ex.d.vars.len()).map(|k| if k < boxes::NV { k } else { usize::MAX }).collect();
                            let ctx = boxes::Ctx { d: &ex.d, dims };
                            let want = get("--goal").unwrap_or("post0".into());
                            for g in gs.iter().filter(|g| g.name.contains(&want)).take(1) {
                                let mut ev = boxes::Eval::new(&ctx);
                                let v = ev.run(g.n, &boxes::BoxV { r: r.clone(), depth: 0 });
                                println!("{} -> {} influence {:?}", g.name, v, ev.influence);
                                ev.dump(g.n);
                            }
                            continue;
                        }
                        for g in &gs {
                            println!("   {} := {}", g.name, ex.d.show(g.n, get("--depth").and_then(|x| x.parse().ok()).unwrap_or(5)).chars().take(2500).collect::<String>());
                        }
                    }
                    ("ok".into(), run_goals(&ex.d, &gs, s, &tmp, tl, &[]))
                }
            },
        };
        outs.extend(lemmas);
        let mut executed: Vec<String> = ex
            .executed
            .iter()
            .filter_map(|n| m.funcs.get(n).map(|f| f.pretty.clone()))
            .filter(|p| p.contains("micromath"))
            .collect();
        executed.sort();
        executed.dedup();
        let el = t0.elapsed().as_secs_f64();
        println!("{} {} {:.2}s", s.vc, status, el);
        if !first {
            json.push(',');
        }
        first = false;
        json += &format!(
            "\n{{\"prop\":\"{}\",\"vc\":\"{}\",\"status\":\"{}\",\"secs\":{:.3},\"kinds\":[{}],\"functions\":[{}],\"obligations\":[",
            s.prop,
            s.vc,
            esc(&status),
            el,
            m.funcs.get(&s.vc).map(|f| f.params.iter().map(|_| "0").collect::<Vec<_>>().join(",")).unwrap_or_default(),
            executed.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",")
        );
        for (i, o) in outs.iter().enumerate() {
            println!("    {} {} {} {:.2}s {} {:x?}", if o.ok { "ok  " } else { "FAIL" }, o.name, o.by, o.secs, o.note, o.cex);
            if i > 0 {
                json.push(',');
            }
            json += &format!(
                "\n {{\"name\":\"{}\",\"ok\":{},\"by\":\"{}\",\"secs\":{:.3},\"note\":\"{}\",\"cex\":{}}}",
                esc(&o.name),
                o.ok,
                esc(&o.by),
                o.secs,
                esc(&o.note),
                match &o.cex {
                    Some(v) => format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                    None => "null".into(),
                }
            );
        }
        json += "]}";
    }
    json += "\n]\n";
    if let Some(o) = out {
        std::fs::write(o, json).expect("write output");
    }
}

/// Functions of two builds that are the same up to the names of what they refer to, which is the
/// same in turn: they do the same on all arguments.
struct Congruence<'a> {
    a: &'a ir::Module,
    b: &'a ir::Module,
    seen: std::collections::HashSet<(String, String)>,
}
impl<'a> Congruence<'a> {
    /// text with the global names taken out
    fn split(t: &str) -> (String, Vec<String>) {
        let (mut out, mut names, mut rest) = (String::new(), vec![], t);
        while let Some(i) = rest.find("Glob(\"") {
            let e = rest[i + 6..].find('"').unwrap_or(0);
            out.push_str(&rest[..i + 6]);
            names.push(rest[i + 6..i + 6 + e].to_string());
            rest = &rest[i + 6 + e..];
        }
        out.push_str(rest);
        (out, names)
    }
    fn text(&mut self, what: &str, x: &str, y: &str, mx: usize, my: usize) -> Result<(), String> {
        if x.contains("Unsupported(") {
            return Err(format!("{}: instruction not supported", what));
        }
        let ((s, ns), (t, nt)) = (Self::split(x), Self::split(y));
        if s != t || ns.len() != nt.len() {
            return Err(format!("{} differs", what));
        }
        for (n, k) in ns.iter().zip(&nt) {
            self.same(n, k, mx, my)?;
        }
        Ok(())
    }
    fn same(&mut self, x: &str, y: &str, mx: usize, my: usize) -> Result<(), String> {
        if !self.seen.insert((format!("{}:{}", mx, x), format!("{}:{}", my, y))) {
            return Ok(());
        }
        if let (Some(f), Some(g)) = (self.a.funcs.get(x), self.b.funcs.get(y)) {
            let sig = |f: &ir::Func| format!("{:?} {:?} {:?}", f.ret, f.params, f.blocks);
            return self.text(&f.pretty, &sig(f), &sig(g), f.module, g.module);
        }
        let data = |m: &'a ir::Module, n: &str, k: usize| m.globals.get(&format!("{}:{}", k, n)).or_else(|| m.globals.get(n));
        if let (Some((t, v, k)), Some((u, w, l))) = (data(self.a, x, mx), data(self.b, y, my)) {
            return self.text(x, &format!("{:?} {:?}", t, v), &format!("{:?} {:?}", u, w), *k, *l);
        }
        let body = |m: &ir::Module, n: &str, k: usize| m.funcs.contains_key(n) || m.globals.contains_key(n) || m.globals.contains_key(&format!("{}:{}", k, n));
        if x == y && !body(self.a, x, mx) && !body(self.b, y, my) {
            return Ok(()); // the same external function
        }
        Err(format!("{} and {}", x, y))
    }
}

/// Every probe of the second build returns for the same arguments, and with the same result, as
/// in the first one.
fn equiv(m: &ir::Module, others: &str, tmp: &str, tl: f64, cap: f64, out: Option<String>, only: Option<String>) {
    let mut b = ir::Module::default();
    for f in others.split(',') {
        let t = std::fs::read_to_string(f).expect("IR file");
        if let Err(x) = ir::parse(&t, &mut b) {
            eprintln!("parse error in {}: {}", f, x);
            std::process::exit(3);
        }
    }
    let begin = Instant::now();
    let _ = std::fs::create_dir_all(tmp);
    let mut probes: Vec<&String> = b.funcs.keys().filter(|f| f.starts_with("probe__") || f.starts_with("slice__")).collect();
    probes.sort();
    let mut json = vec![];
    let mut executed: std::collections::BTreeSet<String> = Default::default();
    for p in probes {
        if only.as_ref().map_or(false, |o| o != p) {
            continue;
        }
        let t0 = Instant::now();
        let mut note = String::new();
        let mut both = || -> Result<(Exec, N), String> {
            let f = &b.funcs[p];
            let g = m.funcs.get(p).ok_or("the probe is missing in the other build")?;
            let tys: Vec<T> = f.params.iter().map(|x| dt(&x.0)).collect::<Result<_, _>>()?;
            if tys != g.params.iter().map(|x| dt(&x.0)).collect::<Result<Vec<_>, _>>()? {
                return Err("different parameters".into());
            }
            let mut x = Exec::new(m);
            let args: Vec<N> = tys.iter().enumerate().map(|(i, &t)| x.d.var(&format!("a{}", i), t)).collect();
            let (v, g) = x.run_on(p, &args)?;
            let mut y = Exec::new(&b);
            y.d = x.d;
            let (u, h) = y.run_on(p, &args)?;
            executed.extend(y.executed.iter().filter_map(|n| b.funcs.get(n)).map(|f| f.pretty.clone()).filter(|f| f.contains("micromath")));
            let d = &mut y.d;
            let zero = d.konst(T::I(64), 0);
            let (v, u) = match (v, u) {
                (Val::Agg(_), _) | (_, Val::Agg(_)) => return Err("aggregate result".into()),
                (v, u) => (if let Val::N(n) = v { n } else { zero }, if let Val::N(n) = u { n } else { zero }),
            };
            let differ = if v == u {
                d.fls()
            } else {
                let e = d.mk(K::Eq, T::I(1), &[v, u], 0);
                d.not(e)
            };
            let differ = d.and(g, differ);
            let returns = if g == h { d.fls() } else { d.mk(K::Xor, T::I(1), &[g, h], 0) };
            let n = d.or(returns, differ);
            Ok((y, n))
        };
        let r = if p.starts_with("slice__") { Err(String::new()) } else { both() };
        let o = match r {
            Err(x) if x.is_empty() => {
                let f = &b.funcs[p];
                let mut c = Congruence { a: m, b: &b, seen: Default::default() };
                let r = c.same(p, p, m.funcs.get(p).map_or(0, |f| f.module), f.module);
                executed.extend(c.seen.iter().filter_map(|x| b.funcs.get(x.1.split_once(':')?.1)).map(|f| f.pretty.clone()).filter(|f| f.contains("micromath")));
                Outcome { name: p.clone(), ok: r.is_ok(), by: "congruence of the IR".into(), secs: 0.0, cex: None, note: r.err().unwrap_or_default() }
            }
            Err(x) => {
                note = format!("unsupported: {}", x);
                Outcome { name: p.clone(), ok: false, by: String::new(), secs: 0.0, cex: None, note: note.clone() }
            }
            Ok((x, n)) => {
                let s = Spec { prop: String::new(), vc: p.clone(), backends: vec!["smt".into(), "box".into()], opts: HashMap::new() };
                let g = Goal { name: p.clone(), n, trail: vec![] };
                let tl = tl.min((cap - begin.elapsed().as_secs_f64()).max(0.2));
                run_goals(&x.d, &[g], &s, tmp, tl, &[]).remove(0)
            }
        };
        let _ = note;
        json.push(format!(
            "{{\"name\":\"{}\",\"ok\":{},\"by\":\"{}\",\"secs\":{:.3},\"note\":\"{}\",\"cex\":{}}}",
            esc(&o.name),
            o.ok,
            esc(&o.by),
            t0.elapsed().as_secs_f64(),
            esc(&o.note),
            match &o.cex {
                Some(v) => format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
                None => "null".into(),
            }
        ));
        if !o.ok || only.is_some() {
            println!("{} {} {} {:.2}s {} {:x?}", if o.ok { "ok  " } else { "FAIL" }, o.name, o.by, t0.elapsed().as_secs_f64(), o.note, o.cex);
        }
    }
    println!("{} probes", json.len());
    if let Some(o) = out {
        let fns: Vec<String> = executed.iter().map(|f| format!("\"{}\"", esc(f))).collect();
        std::fs::write(o, format!("{{\"probes\":[{}],\"functions\":[{}]}}\n", json.join(",\n"), fns.join(","))).expect("write output");
    }
}

/// contracts of callees: function, contract function that establishes the summary used for it
/// contracts of callees settled by the caller of this program (in the same check)
static HOLDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

const CONTRACTS: &[(&str, &str)] = &[
    ("ln", "vc__C11__ln"),
    ("exp", "vc__C10__exp"),
    ("sqrt", "vc__C12__sqrt"),
    ("invsqrt", "vc__C12__invsqrt"),
    ("inv", "vc__C13__inv"),
    ("sin", "vc__C05__sin"),
    ("cos", "vc__C05__cos"),
    ("asin", "vc__C09__asin"),
    ("floor", "vc__C02__floor"),
    ("trunc", "vc__C04__trunc"),
    ("fract", "vc__C04__fract"),
];

/// `opaque=f,g`: calls to F32::f are uninterpreted functions. `uses=f,g`: the contract of F32::f
/// is proved first and then stands for its calls; when that proof fails the body is used.
fn set_summaries(ex: &mut Exec, m: &ir::Module, s: &Spec, specs: &[Spec], tmp: &str, tl: f64, lemmas: &mut Vec<Outcome>) {
    // inline functions have a copy per crate
    let find = |f: &str| -> Vec<String> { m.funcs.values().filter(|x| x.pretty == format!("<micromath::float::F32>::{}", f)).map(|x| x.name.to_string()).collect() };
    for f in s.opts.get("opaque").map_or("", |x| x).split(',').filter(|x| !x.is_empty()) {
        for n in find(f) {
            ex.summaries.insert(n, format!("fn_{}", f));
        }
    }
    for f in s.opts.get("uses").map_or("", |x| x).split(',').filter(|x| !x.is_empty()) {
        let Some(c) = CONTRACTS.iter().find(|c| c.0 == f) else { continue };
        let Some(cs) = specs.iter().find(|x| x.vc == c.1) else { continue };
        let o = if HOLDS.get().is_some_and(|h| h.iter().any(|x| x == c.1)) {
            vec![]
        } else {
            let mut e = Exec::new(m);
            let np = s.opts.get("nopanic").map_or(true, |x| x != "0");
            let Ok((gs, _)) = goals(&mut e, c.1, &[], np) else { continue };
            run_goals(&e.d, &gs, cs, tmp, tl.min(60.0), &[])
        };
        if o.iter().all(|x| x.ok) {
            let k = match f {
                "floor" | "trunc" | "fract" => format!("math_{}", f),
                _ => format!("sum_{}", f),
            };
            for n in find(f) {
                ex.summaries.insert(n, k.clone());
            }
            lemmas.extend(o.into_iter().map(|mut x| {
                x.name += " (contract of a callee)";
                x
            }));
        }
    }
}

/// `for=i:a..b`: one instance of the contract for each value of argument i
fn instances(s: &Spec) -> Option<(usize, i64, i64)> {
    let (i, r) = s.opts.get("for")?.split_once(':')?;
    let (a, b) = r.split_once("..")?;
    Some((i.parse().ok()?, a.parse().ok()?, b.parse().ok()?))
}

fn run_instances(m: &ir::Module, ex: &mut Exec, s: &Spec, (i, a, b): (usize, i64, i64), panics: bool, tmp: &str, tl: f64) -> (String, Vec<Outcome>) {
    let mut merged: Vec<Outcome> = vec![];
    let w = m.funcs.get(&s.vc).and_then(|f| dt(&f.params[i].0).ok()).map_or(32, |t| t.bits());
    for v in a..=b {
        let fixed = [(i, v as u64 & mask(w))];
        let mut e = Exec::new(m);
        e.summaries = ex.summaries.clone();
        match goals(&mut e, &s.vc, &fixed, panics) {
            Err(e) => return (format!("unsupported: {}", e), merged),
            Ok((gs, _)) => {
                for mut o in run_goals(&e.d, &gs, s, tmp, tl, &fixed) {
                    o.note = if o.ok { String::new() } else { format!("argument {} = {}: {}", i, v, o.note) };
                    match merged.iter_mut().find(|x| x.name == o.name) {
                        Some(x) => {
                            o.secs += x.secs;
                            if o.ok && x.by != "simplifier" {
                                o.by = x.by.clone();
                            }
                            *x = o;
                        }
                        None => merged.push(o),
                    }
                }
            }
        }
        ex.executed.extend(e.executed.into_iter());
        if merged.iter().any(|x| !x.ok) {
            break;
        }
    }
    for o in merged.iter_mut().filter(|o| o.ok) {
        o.note = format!("{} instances: argument {} from {} to {}", b - a + 1, i, a, b);
    }
    ("ok".into(), merged)
}

fn run_goals(d: &Dag, gs: &[Goal], s: &Spec, tmp: &str, tl: f64, fixed: &[(usize, u64)]) -> Vec<Outcome> {
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<(usize, Outcome)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= gs.len() {
                    return;
                }
                // one failure is enough where nothing depends on the others
                if s.opts.contains_key("upgrade") && res.lock().unwrap().iter().any(|x| !x.1.ok) {
                    return;
                }
                let o = one_goal(d, &gs[i], s, tmp, tl, i, fixed);
                res.lock().unwrap().push((i, o));
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn one_goal(d: &Dag, g: &Goal, s: &Spec, tmp: &str, tl: f64, idx: usize, fixed: &[(usize, u64)]) -> Outcome {
    let t0 = Instant::now();
    let mut o = Outcome { name: g.name.clone(), ok: false, by: String::new(), secs: 0.0, cex: None, note: String::new() };
    match d.cst(g.n) {
        Some(0) => {
            o.ok = true;
            o.by = "simplifier".into();
            return o;
        }
        Some(_) => {
            o.note = "violated for all arguments".into();
            o.cex = Some((0..d.vars.len()).map(|i| fixed.iter().find(|f| f.0 == i).map_or(0, |f| f.1)).collect());
            return o;
        }
        None => {}
    }
    // path conditions are long: first try with the latest conjuncts only (goals without a trail: not done)
    for k in [1usize, 3, 8, 20] {
        let Some(text) = smt::weakened(d, &g.trail, k) else { break };
        let f = format!("{}/{}_{}_w{}.smt2", tmp, s.vc, idx, k);
        let (a, by, _) = smt::solve(&text, &[], 0, &f, 2.0, &["z3"]);
        if a == smt::Ans::Unsat {
            o.ok = true;
            o.by = format!("{} (QF_UFBV, last {} path conditions)", by, k);
            o.secs = t0.elapsed().as_secs_f64();
            return o;
        }
    }
    let mut backends = s.backends.clone();
    if !backends.iter().any(|b| b == "smt") && !d.any(g.n, &|x| d.ty(x).is_f(), &mut Default::default()) {
        // nothing but integers
        backends.insert(0, "smt".into());
    }
    for b in &backends {
        match b.as_str() {
            "smt" => {
                // level 2: as level 0 with uninterpreted products; then level 0, then level 1 (exact)
                for level in [2u8, 0, 1] {
                    if level == 2 && !smt::has_products(d, g.n) {
                        continue;
                    }
                    match smt::script(d, g.n, level, "") {
                        Ok((t, vars)) => {
                            let f = format!("{}/{}_{}_{}.smt2", tmp, s.vc, idx, level);
                            let limit = if level != 1 { tl.min(5.0) } else { tl };
                            // cvc5 1.1.2 answers wrongly with uninterpreted functions over floats
                            let solvers: &[&str] = if level != 1 || t.contains("(declare-fun uf_") { &["z3"] } else { &["z3", "cvc5"] };
                            let (a, by, _) = smt::solve(&t, &vars, d.vars.len(), &f, limit, solvers);
                            match a {
                                smt::Ans::Unsat => {
                                    o.ok = true;
                                    o.by = format!("{} ({})", by, if level != 1 { "QF_UFBV" } else { "QF_BVFP" });
                                    o.secs = t0.elapsed().as_secs_f64();
                                    return o;
                                }
                                smt::Ans::Sat(m) => {
                                    if level == 1 {
                                        o.note = format!("{}: satisfiable", by);
                                        o.by = by;
                                        o.cex = if m.is_empty() { None } else { Some(m) };
                                        o.secs = t0.elapsed().as_secs_f64();
                                    }
                                }
                                smt::Ans::Unknown(x) => o.note = x,
                            }
                        }
                        Err(x) => o.note = x,
                    }
                }
            }
            "box" => {
                let mut k = 0;
                let dims: Vec<usize> = d.vars.iter().map(|_| { k += 1; if k <= boxes::NV { k - 1 } else { usize::MAX } }).collect();
                let ctx = boxes::Ctx { d, dims };
                let st = boxes::Stats::default();
                let start = boxes::initial(d, fixed);
                let dl = Instant::now() + std::time::Duration::from_secs_f64(tl);
                let v = boxes::prove(&ctx, g.n, start, dl, u64::MAX, &st, threads());
                let nb = st.boxes.load(SeqCst);
                match v {
                    boxes::Verdict::Proved => {
                        o.ok = true;
                        o.by = "box".into();
                        o.note = format!("{} boxes, depth {}", nb, st.depth.load(SeqCst));
                    }
                    boxes::Verdict::Cex(c) => {
                        o.note = format!("box: violated ({} boxes)", nb);
                        o.cex = Some(c);
                    }
                    boxes::Verdict::Stuck(b, why) => {
                        o.note = format!("box: {} after {} boxes at {:x?}", why, nb, b.r);
                        o.cex = Some(b.r.iter().map(|x| x.0).collect());
                        continue;
                    }
                }
                if o.ok || o.cex.is_some() {
                    break;
                }
            }
            "poly" => {
                let f = format!("{}/{}_{}_p.smt2", tmp, s.vc, idx);
                let r = poly::prove(d, g.n, s.opts.contains_key("sums"), &f, Instant::now() + std::time::Duration::from_secs_f64(tl), None);
                o.note = r.note;
                if r.proved {
                    o.ok = true;
                    o.by = "poly, z3 (QF_LRA)".into();
                    o.secs = t0.elapsed().as_secs_f64();
                    return o;
                }
            }
            _ => o.note = format!("unknown back end {}", b),
        }
        if o.ok {
            break;
        }
    }
    o.secs = t0.elapsed().as_secs_f64();
    o
}
