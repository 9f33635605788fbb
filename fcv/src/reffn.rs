//! Enclosures of the mathematical reference functions (f64 libm, inflated) and of the
//! contracts of callees used in place of their bodies.
use crate::boxes::Ab::*;
use crate::boxes::*;

const INF: f64 = f64::INFINITY;
const REL: f64 = 2e-15;

fn lo(x: f64) -> f64 {
    if x.is_infinite() {
        return if x > 0.0 { f64::MAX } else { x };
    }
    x - x.abs() * REL - 1e-300
}
fn hi(x: f64) -> f64 {
    if x.is_infinite() {
        return if x < 0.0 { f64::MIN } else { x };
    }
    x + x.abs() * REL + 1e-300
}
fn top() -> Ab {
    F { lo: -INF, hi: INF, nan: true, aff: None }
}

/// a smooth function on [l, h]: range [rl, rh], value and slope at the centre of the affine form, bound of |f''|
fn smooth(l: f64, h: f64, aff: Option<Aff>, rl: f64, rh: f64, f: &dyn Fn(f64) -> f64, df: &dyn Fn(f64) -> f64, ddf: f64) -> Ab {
    let (mut a, mut b) = (lo(rl), hi(rh));
    let mut out = None;
    if let Some(x) = aff {
        // the centre must lie in the domain
        if x.c >= l && x.c <= h && ddf.is_finite() {
            let fc = f(x.c);
            if fc.is_finite() {
                // f'' is bounded on the affine range intersected with [l, h]; values outside do not occur
                let mut y = lift(&x, fc, df(x.c), ddf);
                y.e += fc.abs() * REL + 1e-300;
                let r = range(&y);
                a = a.max(r.0);
                b = b.min(r.1);
                out = Some(y);
            }
        }
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    F { lo: a, hi: b, nan: false, aff: out }
}
fn range(x: &Aff) -> (f64, f64) {
    let r = x.e + x.v.iter().map(|y| y.abs()).sum::<f64>();
    (x.c - r * (1.0 + 1e-15) - x.c.abs() * 1e-15, x.c + r * (1.0 + 1e-15) + x.c.abs() * 1e-15)
}
fn lift(x: &Aff, f: f64, df: f64, ddf: f64) -> Aff {
    let r = (x.e + x.v.iter().map(|y| y.abs()).sum::<f64>()) * (1.0 + 1e-15);
    let mut y = *x;
    y.c = f;
    for i in 0..NV {
        y.v[i] *= df;
    }
    y.e = (x.e * df.abs() + ddf * r * r / 2.0 + df.abs() * r * 4e-15) * (1.0 + 1e-14) + f.abs() * 1e-15 + 1e-300;
    y
}

pub fn enclose(name: &str, a: &[Ab]) -> Ab {
    match a {
        [F { lo: l, hi: h, nan, aff }] => {
            let (l, h) = (*l, *h);
            if l > h {
                return F { lo: INF, hi: -INF, nan: true, aff: None };
            }
            let mut r = unary(name, l, h, *aff);
            if *nan {
                if let F { nan, aff, .. } = &mut r {
                    *nan = true;
                    *aff = None;
                }
            }
            r
        }
        [F { lo: l1, hi: h1, nan: n1, aff: a1 }, F { lo: l2, hi: h2, nan: n2, aff: a2 }] => {
            if *n1 || *n2 {
                return top();
            }
            binary(name, (*l1, *h1, *a1), (*l2, *h2, *a2))
        }
        _ => top(),
    }
}

fn unary(name: &str, l: f64, h: f64, aff: Option<Aff>) -> Ab {
    match name {
        "ref_sin" | "ref_cos" => {
            if !(l.is_finite() && h.is_finite()) {
                return F { lo: -1.0, hi: 1.0, nan: true, aff: None };
            }
            let s = name == "ref_sin";
            let f = |x: f64| if s { x.sin() } else { x.cos() };
            let df = |x: f64| if s { x.cos() } else { -x.sin() };
            let m = (l + h) / 2.0;
            let r = (h - l) / 2.0 * (1.0 + 1e-15);
            // mean value with |f'| <= |f'(m)| + r
            let sl = (df(m).abs() + r).min(1.0) * r;
            let (a, b) = ((f(m) - sl - 1e-15).max(-1.0), (f(m) + sl + 1e-15).min(1.0));
            smooth(l, h, aff, a, b, &f, &df, (f(m).abs() + r).min(1.0) * (1.0 + 1e-12))
        }
        "ref_tan" => {
            let p = |x: f64| (x / std::f64::consts::PI + 0.5).floor();
            if !(l.is_finite() && h.is_finite()) || p(l - 1e-9) != p(h + 1e-9) {
                return F { lo: -INF, hi: INF, nan: !(l.is_finite() && h.is_finite()), aff: None };
            }
            let (a, b) = (l.tan(), h.tan());
            let m = a.abs().max(b.abs()) * (1.0 + 1e-12);
            smooth(l, h, aff, a, b, &|x| x.tan(), &|x| 1.0 + x.tan() * x.tan(), 2.0 * m * (1.0 + m * m) * (1.0 + 1e-9))
        }
        "ref_atan" => {
            let m = if l > 0.0 { l } else if h < 0.0 { -h } else { 0.0 };
            let dd = (2.0 / (m * m * m)).min(0.65);
            smooth(l, h, aff, l.atan(), h.atan(), &|x| x.atan(), &|x| 1.0 / (1.0 + x * x), dd)
        }
        "ref_asin" | "ref_acos" => {
            let s = name == "ref_asin";
            if l < -1.0 || h > 1.0 {
                return F { lo: -1.6, hi: 3.2, nan: true, aff: None };
            }
            let m = l.abs().max(h.abs());
            let dd = if m < 1.0 { m / (1.0 - m * m).powf(1.5) * (1.0 + 1e-9) } else { INF };
            if s {
                smooth(l, h, aff, l.asin(), h.asin(), &|x| x.asin(), &|x| 1.0 / (1.0 - x * x).sqrt(), dd)
            } else {
                smooth(l, h, aff, h.acos(), l.acos(), &|x| x.acos(), &|x| -1.0 / (1.0 - x * x).sqrt(), dd)
            }
        }
        "ref_exp" => smooth(l, h, aff, l.exp(), h.exp(), &|x| x.exp(), &|x| x.exp(), h.exp() * (1.0 + 1e-9)),
        "ref_ln" => {
            if l <= 0.0 {
                return F { lo: -INF, hi: if h > 0.0 { hi(h.ln()) } else { -INF }, nan: l < 0.0, aff: None };
            }
            smooth(l, h, aff, l.ln(), h.ln(), &|x| x.ln(), &|x| 1.0 / x, 1.0 / (l * l) * (1.0 + 1e-9))
        }
        "ref_sqrt" => {
            if l < 0.0 {
                return F { lo: 0.0, hi: hi(h.max(0.0).sqrt()), nan: true, aff: None };
            }
            let dd = if l > 0.0 { 0.25 / (l * l.sqrt()) * (1.0 + 1e-9) } else { INF };
            match smooth(l, h, aff, l.sqrt(), h.sqrt(), &|x| x.sqrt(), &|x| 0.5 / x.sqrt(), dd) {
                F { lo, hi, nan, aff } => F { lo: lo.max(0.0), hi, nan, aff },
                x => x,
            }
        }
        "ref_cosh" => {
            let m = l.abs().max(h.abs());
            let n = if l > 0.0 { l } else if h < 0.0 { -h } else { 0.0 };
            smooth(l, h, aff, n.cosh(), m.cosh(), &|x| x.cosh(), &|x| x.sinh(), m.cosh() * (1.0 + 1e-9))
        }
        _ => top(),
    }
}

fn binary(name: &str, x: (f64, f64, Option<Aff>), y: (f64, f64, Option<Aff>)) -> Ab {
    match name {
        "ref_pow" if x.0 >= 0.0 && y.0 == y.1 && y.0.is_finite() => {
            // a constant exponent
            let n = y.0;
            let f = |v: f64| v.powf(n);
            let (p, q) = (f(x.0), f(x.1));
            let (a, b) = (p.min(q), p.max(q));
            if !(b.is_finite() && x.0 > 0.0) {
                return F { lo: if x.0 == x.1 && a.is_infinite() { INF } else { lo(a) * (1.0 - 1e-13) }, hi: if b.is_finite() { hi(b) * (1.0 + 1e-13) } else { INF }, nan: false, aff: None };
            }
            let dd = |v: f64| (n * (n - 1.0) * v.powf(n - 2.0)).abs();
            let ddf = dd(x.0).max(dd(x.1)) * (1.0 + 1e-12);
            match smooth(x.0, x.1, x.2, a, b, &f, &|v| n * v.powf(n - 1.0), ddf) {
                F { lo: l, hi: h, nan, aff } => F { lo: lo(l) - l.abs() * 1e-13, hi: hi(h) + h.abs() * 1e-13, nan, aff: aff.map(|mut z| { z.e += h.abs() * 1e-13; z }) },
                r => r,
            }
        }
        "ref_pow" => {
            // for a positive base
            if x.0 <= 0.0 || !(x.1.is_finite() && y.0.is_finite() && y.1.is_finite()) {
                return top();
            }
            let (mut a, mut b) = (INF, -INF);
            for p in [x.0, x.1] {
                for q in [y.0, y.1] {
                    let v = p.powf(q);
                    a = a.min(v);
                    b = b.max(v);
                }
            }
            let mut out = None;
            if let (Some(p), Some(q)) = (x.2, y.2) {
                if let F { lo: ll, hi: lh, aff: Some(l), .. } = unary("ref_ln", x.0, x.1, Some(p)) {
                    let pr = farith(crate::dag::K::FMul, crate::dag::T::F64, &F { lo: ll, hi: lh, nan: false, aff: Some(l) }, &F { lo: y.0, hi: y.1, nan: false, aff: Some(q) }, false);
                    if let F { lo, hi, aff: Some(m), .. } = pr {
                        if let F { lo, hi, aff, .. } = unary("ref_exp", lo, hi, Some(m)) {
                            a = a.max(lo);
                            b = b.min(hi);
                            out = aff;
                        }
                    }
                }
            }
            F { lo: lo(a) * (1.0 - 1e-13), hi: hi(b) * (1.0 + 1e-13), nan: false, aff: out.map(|mut z| { z.e += b.abs() * 1e-13; z }) }
        }
        "ref_atan2" => {
            let (yl, yh, xl, xh) = (x.0, x.1, y.0, y.1);
            let pi = 3.1415926535897936;
            let full = F { lo: -pi, hi: pi, nan: false, aff: None };
            // away from the origin and the cut
            if xl <= 0.0 && yl <= 0.0 && yh >= 0.0 && !(yl == 0.0 && !yl.is_sign_negative() || yh == 0.0 && yh.is_sign_negative()) {
                return full;
            }
            if xl <= 0.0 && xh >= 0.0 && yl <= 0.0 && yh >= 0.0 {
                return full;
            }
            let (mut a, mut b) = (INF, -INF);
            for p in [yl, yh] {
                for q in [xl, xh] {
                    let v = p.atan2(q);
                    a = a.min(v);
                    b = b.max(v);
                }
            }
            let mut out = None;
            if let (Some(p), Some(q)) = (x.2, y.2) {
                let (rp, rq) = (p.e + p.v.iter().map(|z| z.abs()).sum::<f64>(), q.e + q.v.iter().map(|z| z.abs()).sum::<f64>());
                let (c, s) = (q.c, p.c);
                let r2 = c * c + s * s;
                // distance of the box from the origin
                let mx = (c.abs() - rq).max(0.0);
                let my = (s.abs() - rp).max(0.0);
                let m2 = mx * mx + my * my;
                if m2 > 0.0 && r2.is_finite() && r2 > 0.0 && !(c < 0.0 && s.abs() <= rp) {
                    // second derivatives along any direction are at most 1/r^2
                    let rr = rp * rp + rq * rq;
                    let (dy, dx) = (c / r2, -s / r2);
                    let mut z = Aff { c: s.atan2(c), v: [0.0; NV], e: 0.0 };
                    for i in 0..NV {
                        z.v[i] = p.v[i] * dy + q.v[i] * dx;
                    }
                    z.e = (p.e * dy.abs() + q.e * dx.abs() + rr / m2 / 2.0 + (rp * dy.abs() + rq * dx.abs()) * 8e-15) * (1.0 + 1e-12) + 1e-14;
                    out = Some(z);
                }
            }
            F { lo: lo(a) - 1e-15, hi: hi(b) + 1e-15, nan: false, aff: out }
        }
        _ => top(),
    }
}

/// the contract of a callee: an enclosure of its result. The constants are those of the contract
/// functions named in main.rs (CONTRACTS), which are proved before a summary is used.
pub fn summary(name: &str, a: &[Ab]) -> Ab {
    let [x @ F { lo: l, hi: h, nan: false, .. }] = a else { return top() };
    let (l, h) = (*l, *h);
    let minp = f32::MIN_POSITIVE as f64;
    let rel = |r: Ab, lo: f64, hi: f64| -> Ab {
        // positive r times [lo, hi]
        let k = F { lo, hi, nan: false, aff: Some(Aff { c: (lo + hi) / 2.0, v: [0.0; NV], e: (hi - lo) / 2.0 * (1.0 + 1e-12) }) };
        farith(crate::dag::K::FMul, crate::dag::T::F64, &r, &k, false)
    };
    let add = |r: Ab, e: f64| -> Ab {
        let k = F { lo: -e, hi: e, nan: false, aff: Some(Aff { c: 0.0, v: [0.0; NV], e }) };
        farith(crate::dag::K::FAdd, crate::dag::T::F64, &r, &k, false)
    };
    let f = |n: &str| enclose(n, &[*x]);
    match name {
        "sum_ln" if l >= minp && h <= f32::MAX as f64 => add(f("ref_ln"), 0.0001),
        "sum_exp" if l >= -87.0 && h <= 88.69999 => rel(f("ref_exp"), 0.9975, 1.0025),
        "sum_sqrt" if l >= minp && h <= f32::MAX as f64 => rel(f("ref_sqrt"), 0.999999, 1.0608),
        "sum_sin" if l >= -8000.0 && h <= 8000.0 => add(f("ref_sin"), 0.002),
        "sum_cos" if l >= -8000.0 && h <= 8000.0 => add(f("ref_cos"), 0.002),
        "sum_asin" if l >= -1.0 && h <= 1.0 => match add(f("ref_asin"), 0.02) {
            F { lo, hi, nan, aff } => F { lo: lo.max(-1.5718), hi: hi.min(1.5718), nan, aff },
            y => y,
        },
        _ => top(),
    }
}
