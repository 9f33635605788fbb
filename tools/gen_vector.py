#!/usr/bin/env python3
"""writes contracts/src/vector.rs: the contracts of C22, C23 (integers) and C24 for every component type"""
INTS = ["i8", "i16", "i32", "u8", "u16", "u32"]
AX = "xyz"
out = ['''//! Contracts of the vector types for every component type (C22, C24, C23 for integers).
//! Written by tools/gen_vector.py.
use crate::exact::nan;
use crate::{ens, req, vcs};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};

#[inline(always)]
fn same(a: f32, b: f32) -> bool {
    (nan(a) & nan(b)) | (a.to_bits() == b.to_bits())
}
/// the items of s, from an iterator that does not say how many there are
#[inline(always)]
fn unhinted<C: Copy>(s: &[C]) -> impl Iterator<Item = C> + '_ {
    let mut i = 0;
    core::iter::from_fn(move || {
        let r = s.get(i).copied();
        i += 1;
        r
    })
}
''']
specs = []
vcs = []


def vc(prop, name, args, body, opts="smt"):
    vcs.append("fn vc__%s__%s(%s) {\n%s}\n" % (prop, name, ", ".join(args), body))
    specs.append("%s vc__%s__%s %s" % (prop, prop, name, opts))


def vec(T, D, names, wrap="{}"):
    return "Vector%dd { %s }" % (D, ", ".join("%s: %s" % (AX[i], wrap.format(names[i])) for i in range(D)))


def allof(xs, j=" & "):
    return j.join("(%s)" % x for x in xs)


OPS = '''    let r = if op == 0 {
        a + b
    } else if op == 1 {
        let mut v = a;
        v += b;
        v
    } else if op == 2 {
        a - b
    } else if op == 3 {
        let mut v = a;
        v -= b;
        v
    } else if op == 4 {
        a * K
    } else if op == 5 {
        K * a
    } else if op == 6 {
        let mut v = a;
        v *= K;
        v
    } else if op == 7 {
        a / K
    } else if op == 8 {
        let mut v = a;
        v /= K;
        v
    } else if op == 9 {
        [a, b, c].iter().sum()
    } else if op == 10 {
        [a, b, c].iter().copied().sum()
    } else if op == 11 {
        [a].iter().sum()
    } else if op == 12 {
        [a; 0].iter().copied().sum()
    } else {
        [a, b].iter().copied().sum()
    };
'''

# C22
for T in INTS:
    out.append('''
/// the component operation behind vector operation `op`; None when it panics
#[inline(always)]
fn op_%s(op: u8, a: %s, b: %s, c: %s, k: %s) -> Option<%s> {
    if op <= 1 {
        a.checked_add(b)
    } else if op <= 3 {
        a.checked_sub(b)
    } else if op <= 6 {
        a.checked_mul(k)
    } else if op <= 8 {
        a.checked_div(k)
    } else if op <= 10 {
        match a.checked_add(b) {
            Some(s) => s.checked_add(c),
            None => None,
        }
    } else if op == 11 {
        Some(a)
    } else if op == 12 {
        Some(0)
    } else {
        a.checked_add(b)
    }
}
''' % ((T,) * 6))
out.append('''
#[inline(always)]
fn op_f32(op: u8, a: f32, b: f32, c: f32, k: f32) -> f32 {
    if op <= 1 {
        a + b
    } else if op <= 3 {
        a - b
    } else if op <= 6 {
        a * k
    } else if op <= 8 {
        a / k
    } else if op <= 10 {
        0.0 + a + b + c
    } else if op == 11 {
        0.0 + a
    } else if op == 12 {
        0.0
    } else {
        0.0 + a + b
    }
}
''')
for T in INTS + ["f32", "F32"]:
    for D in (2, 3):
        P = "f32" if T == "F32" else T
        wrap = "F32({})" if T == "F32" else "{}"
        n = ["%s%s" % (v, AX[i]) for v in "abc" for i in range(D)]
        args = ["%s: %s" % (x, P) for x in n] + ["k: %s" % P, "op: u8"]
        mk = "".join("    let %s = %s;\n" % (v, vec(T, D, n[j * D:j * D + D], wrap)) for j, v in enumerate("abc"))
        body = mk
        ops = OPS.replace("K", wrap.format("k"))
        if T in INTS:
            for i in range(D):
                body += "    let e%s = op_%s(op, %s, %s, %s, k);\n" % (AX[i], T, n[i], n[D + i], n[2 * D + i])
            pan = body + "    req!(%s);\n" % allof(["e%s.is_none()" % AX[i] for i in range(D)], " | ") + ops
            body += "    req!(%s);\n" % allof(["e%s.is_some()" % AX[i] for i in range(D)]) + ops
            for i in range(D):
                body += "    ens!(%d, Some(r.%s) == e%s);\n" % (i, AX[i], AX[i])
            pan += "    ens!(0, (r.x == 0) & (r.x != 0));\n"
            vc("C22", "%sx%d" % (T, D), args, body)
            vc("C22", "%sx%d__panics" % (T, D), args, pan)
        else:
            body += ops
            for i in range(D):
                f = "r.%s.0" if T == "F32" else "r.%s"
                body += "    ens!(%d, same(%s, op_f32(op, %s, %s, %s, k)));\n" % (i, f % AX[i], n[i], n[D + i], n[2 * D + i])
            vc("C22", "%sx%d" % ("w" if T == "F32" else T, D), args, body)

# C23, integers
for T in INTS:
    s = T[0] == "i"
    L = {"i32": "i64", "u32": "u64", "u8": "u32", "u16": "u32"}.get(T, "i32")
    out.append('''
/// the sum of the magnitudes fits the component type: no order of summation overflows
#[inline(always)]
fn fits_%s(t: &[%s]) -> bool {
    let mut s: %s = 0;
    for x in t {
        if %s {
            return false;
        }
        let a = %s;
        s = s.wrapping_add(a);
    }
    s <= %s::MAX as %s
}
''' % (T, L, L, "(*x > %s::MAX as %s)" % (T, L) + (" | (*x < -(%s::MAX as %s))" % (T, L) if L[0] == "i" else ""), "if *x < 0 { x.wrapping_neg() } else { *x }" if L[0] == "i" else "*x", T, L))
    W = "i64" if T in ("i32", "u32") else "i32"
    for D in (2, 3):
        a = ["a" + AX[i] for i in range(D)]
        b = ["b" + AX[i] for i in range(D)]
        args = ["%s: %s" % (x, T) for x in a + b]
        mk = "    let a = %s;\n    let b = %s;\n" % (vec(T, D, a), vec(T, D, b))
        L = {"i32": "i64", "u32": "u64", "u8": "u32", "u16": "u32"}.get(T, "i32")

        def w(x):
            return "(%s as %s)" % (x, L)

        def prod(x, y):
            return "%s.wrapping_mul(%s)" % (w(x), w(y))

        def fits(terms):
            return "fits_%s(&[%s])" % (T, ", ".join(terms))

        def add(t):
            return t[0] + "".join(".wrapping_add(%s)" % x for x in t[1:])

        dot = [prod(a[i], b[i]) for i in range(D)]
        vc("C23", "dot_%sx%d" % (T, D), args, mk + "    req!(%s);\n    let e = %s;\n    ens!(0, a.dot(b) as %s == e);\n    ens!(1, Vector::dot(a, b) as %s == e);\n" % (fits(dot), add(dot), L, L))
        sq = [prod(a[i], a[i]) for i in range(D)]
        sqpre = fits(sq) if not s else allof(["(%s >= 0) & (%s <= %s::MAX as %s)" % (x, x, T, L) for x in sq] + ["%s <= %s::MAX as %s" % (add(sq), T, L)])
        vc("C23", "sq_%sx%d" % (T, D), args[:D], mk.split("    let b")[0] + "    req!(%s);\n    ens!(0, a.magnitude_sq() as %s == %s);\n" % (sqpre, L, add(sq)))
        if D == 3:
            comp = [(1, 2), (2, 0), (0, 1)]
            t = [(prod(a[i], b[j]), prod(a[j], b[i])) for i, j in comp]
        else:
            t = [(prod(a[0], b[1]), prod(a[1], b[0]))]
        body = mk
        names = []
        for q, (p, m) in enumerate(t):
            body += "    let (p%d, m%d) = (%s, %s);\n" % (q, q, p, m)
            if s:
                body += "    req!(fits_%s(&[p%d, m%d]));\n" % (T, q, q)
            else:
                body += "    req!((p%d <= %s::MAX as %s) & (m%d <= p%d));\n" % (q, T, L, q, q)
        if D == 3:
            body += "    let c = a.cross(b);\n    let d = a * b;\n"
            for q in range(3):
                body += "    ens!(%d, (c.%s as %s == p%d.wrapping_sub(m%d)) & (d.%s == c.%s));\n" % (q, AX[q], L, q, q, AX[q], AX[q])
        else:
            body += "    ens!(0, a.perpendicular_dot(b) as %s == p0.wrapping_sub(m0));\n    let c = a.cross(b);\n    let d = a * b;\n" % L
            body += "    ens!(1, (c.x == 0) & (c.y == 0) & (c.z as %s == p0.wrapping_sub(m0)));\n    ens!(2, c == d);\n" % L
        body = body.replace("a.cross(b)", "a.cross(b)")
        vc("C23", "cross_%sx%d" % (T, D), args, body)
for D in (2, 3):
    # the wrapper type computes the same products as f32
    a = ["a" + AX[i] for i in range(D)]
    b = ["b" + AX[i] for i in range(D)]
    args = ["%s: f32" % x for x in a + b]
    body = "    let (a, b) = (%s, %s);\n    let (p, q) = (%s, %s);\n" % (vec("f32", D, a), vec("f32", D, b), vec("F32", D, a, "F32({})"), vec("F32", D, b, "F32({})"))
    body += "    ens!(0, same(p.dot(q).0, a.dot(b)) & same(Vector::dot(p, q).0, a.dot(b)) & same(Vector::dot(a, b), a.dot(b)));\n"
    body += "    let (c, d, e, f) = (p.cross(q), p * q, a.cross(b), a * b);\n"
    for i in range(3):
        body += "    ens!(%d, same(c.%s.0, e.%s) & same(d.%s.0, e.%s) & same(f.%s, e.%s));\n" % ((i + 1,) + (AX[i],) * 6)
    body += "    ens!(4, same(p.magnitude_sq().0, a.magnitude_sq()));\n"
    if D == 2:
        body += "    ens!(5, same(p.perpendicular_dot(q).0, a.perpendicular_dot(b)));\n"
    vc("C23", "wrapper_x%d" % D, args, body)

# C23, f32: rounding only
out.append('''
/// r differs from the sum of the terms by at most 5e-7 of the sum of their magnitudes (1e-40 for underflow)
#[inline(always)]
fn sums(r: f32, t: &[f64]) -> bool {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    let d = r as f64 - s;
    let e = 5e-7 * m + 1e-40;
    (d <= e) & (d >= -e)
}
#[inline(always)]
pub fn below(x: f32, m: f32) -> bool {
    (x >= -m) & (x <= m)
}
''')
for D in (2, 3):
    a = ["a" + AX[i] for i in range(D)]
    b = ["b" + AX[i] for i in range(D)]
    args = ["%s: f32" % x for x in a + b]
    pre = "    req!(%s);\n" % allof(["below(%s, 1e18)" % x for x in a + b])
    mk = "    let (a, b) = (%s, %s);\n" % (vec("f32", D, a), vec("f32", D, b))

    def t(x, y, sg=""):
        return "%s(%s as f64) * (%s as f64)" % (sg, x, y)
    dot = ", ".join(t(a[i], b[i]) for i in range(D))
    body = pre + mk + "    ens!(0, sums(a.dot(b), &[%s]));\n" % dot
    body += "    ens!(1, sums(Vector::dot(a, b), &[%s]));\n" % dot
    body += "    ens!(2, sums(a.magnitude_sq(), &[%s]));\n" % ", ".join(t(a[i], a[i]) for i in range(D))
    body += "    let (c, d) = (a.cross(b), a * b);\n"
    if D == 3:
        for q, (i, j) in enumerate([(1, 2), (2, 0), (0, 1)]):
            tt = "&[%s, %s]" % (t(a[i], b[j]), t(a[j], b[i], "-"))
            body += "    ens!(%d, sums(c.%s, %s) & sums(d.%s, %s));\n" % (3 + q, AX[q], tt, AX[q], tt)
    else:
        tt = "&[%s, %s]" % (t(a[0], b[1]), t(a[1], b[0], "-"))
        body += "    ens!(3, sums(a.perpendicular_dot(b), %s));\n" % tt
        body += "    ens!(4, (c.x == 0.0) & (c.y == 0.0) & (d.x == 0.0) & (d.y == 0.0) & sums(c.z, %s) & sums(d.z, %s));\n" % (tt, tt)
    vc("C23", "f32x%d" % D, args, body, "poly")

# C24
for T in INTS + ["f32", "F32"]:
    for D in (2, 3):
        P = "f32" if T == "F32" else T
        wrap = "F32({})" if T == "F32" else "{}"
        eq = (lambda p, q: "same(%s.0, %s)" % (p, q)) if T == "F32" else (lambda p, q: "same(%s, %s)" % (p, q)) if T == "f32" else (lambda p, q: "%s == %s" % (p, q))
        n = ["p" + AX[i] for i in range(D)]
        nm = "%sx%d" % ("w" if T == "F32" else T, D)
        args = ["%s: %s" % (x, P) for x in n]
        el = [wrap.format(x) for x in n]
        V = "Vector%dd<%s>" % (D, T)
        body = "    let v = %s;\n" % vec(T, D, n, wrap)
        k = 0

        def ens(cs):
            global body, k
            body += "    ens!(%d, %s);\n" % (k, allof(cs))
            k += 1
        body += "    let t = <%s>::from((%s));\n" % (V, ", ".join(el))
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        body += "    let t = <%s>::from([%s]);\n" % (V, ", ".join(el))
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        body += "    let t = <%s as Vector<%s>>::from_slice(&[%s]);\n" % (V, T, ", ".join(el))
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        body += "    let t: %s = [%s].iter().copied().collect();\n" % (V, ", ".join(el))
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        body += "    let t: %s = unhinted(&[%s]).collect();\n" % (V, ", ".join(el))
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        body += "    let t: (%s) = v.into();\n" % ", ".join([T] * D)
        ens([eq("t.%d" % i, n[i]) for i in range(D)])
        body += "    let t: [%s; %d] = v.into();\n" % (T, D)
        ens([eq("t[%d]" % i, n[i]) for i in range(D)])
        body += "    let t = v.to_array();\n"
        ens([eq("t[%d]" % i, n[i]) for i in range(D)])
        ens([eq("v[%d]" % i, n[i]) for i in range(D)])
        body += "    let mut t = v.iter();\n"
        for i in range(D):
            body += "    let t%d = t.next();\n    req!(true);\n" % i
        body += "    ens!(%d, %s);\n" % (k, allof(["t%d.is_some()" % i for i in range(D)] + ["t.next().is_none()", "t.next().is_none()"]))
        k += 1
        ens([eq("t%d.unwrap()" % i, n[i]) for i in range(D)])
        for i in range(D + 2):
            if i < D:
                body += "    let t = v.iter().nth(%d);\n    ens!(%d, t.is_some());\n    let t = t.unwrap();\n    ens!(%d, %s);\n" % (i, k, k + 1, eq("t", n[i]))
                k += 2
            else:
                body += "    ens!(%d, v.iter().nth(%d).is_none());\n" % (k, i)
                k += 1
        body += "    let t = v.iter().last();\n    ens!(%d, t.is_some());\n    let t = t.unwrap();\n" % k
        k += 1
        ens([eq("t", n[-1])])
        body += "    let mut t = v.iter();\n"
        for i in range(D + 1):
            body += "    let c = t.clone().count();\n    let (lo, hi) = t.size_hint();\n    ens!(%d, (c == %d) & (lo <= %d) & (hi.is_none() | (hi.unwrap_or(9) >= %d)));\n" % (k, D - i, D - i, D - i)
            k += 1
            body += "    let _ = t.next();\n"
        body += "    let mut t = v.iter().step_by(2);\n    let (p, q, r) = (t.next(), t.next(), t.next());\n"
        body += "    ens!(%d, p.is_some() & q.%s() & r.is_none());\n" % (k, "is_some" if D == 3 else "is_none")
        k += 1
        body += "    let p = p.unwrap();\n"
        ens([eq("p", n[0])])
        if D == 3:
            body += "    let q = q.unwrap();\n"
            ens([eq("q", n[2])])
        body += "    let p = v.iter().skip(1).next();\n    ens!(%d, p.is_some());\n    let p = p.unwrap();\n" % k
        k += 1
        ens([eq("p", n[1])])
        body += "    ens!(%d, <%s as Vector<%s>>::AXES == %d);\n" % (k, V, T, D)
        k += 1
        body += "    let mut u = v;\n    let t = u.map(|z| z);\n"
        ens([eq("t." + AX[i], n[i]) for i in range(D)])
        if T in ("i8", "i16", "u8", "u16"):
            body += "    let t = Vector%dd::<f32>::from(v);\n" % D
            ens(["t.%s.to_bits() == (%s as f32).to_bits()" % (AX[i], n[i]) for i in range(D)])
        if T == "F32" and D == 3:
            body += "    let t = Vector%dd::<f32>::from(v);\n" % D
            ens(["same(t.%s, %s)" % (AX[i], n[i]) for i in range(D)])
        if D == 2:
            body += "    let t = Vector3d::from(v);\n"
            ens([eq("t." + AX[i], n[i]) for i in range(D)] + [eq("t.z", {"f32": "0.0", "F32": "0.0"}.get(T, "0"))])
        body += "    let t = <%s>::default();\n" % V
        ens([eq("t." + AX[i], "0.0" if P == "f32" else "0") for i in range(D)])
        vc("C24", "conv_" + nm, args, body)
        # the other ways to read an iterator, from every state
        body = "    let v = %s;\n    let mut t = v.iter();\n" % vec(T, D, n, wrap)
        k = 0
        for i in range(D + 2):
            left = n[i:]
            body += "    let r = t.clone().last();\n    ens!(%d, r.%s());\n" % (k, "is_some" if left else "is_none")
            k += 1
            if left:
                body += "    let r = r.unwrap();\n"
                ens([eq("r", left[-1])])
            for j in range(D):
                body += "    let mut u = t.clone();\n    let (r, s) = (u.nth(%d), u.next());\n    ens!(%d, r.%s() & s.%s());\n" % (
                    j, k, "is_some" if j < len(left) else "is_none", "is_some" if j + 1 < len(left) else "is_none")
                k += 1
                if j < len(left):
                    body += "    let r = r.unwrap();\n"
                    ens([eq("r", left[j])])
                if j + 1 < len(left):
                    body += "    let s = s.unwrap();\n"
                    ens([eq("s", left[j + 1])])
            body += "    let mut got = [<%s>::default(); %d];\n    let c = t.clone().fold(0, |c, x| {\n        if c < %d {\n            got[c] = x;\n        }\n        c + 1\n    });\n    ens!(%d, c == %d);\n" % (T, D, D, k, len(left))
            k += 1
            if left:
                ens([eq("got[%d]" % j, left[j]) for j in range(len(left))])
            body += "    let _ = t.next();\n"
        # map: once per component, in order
        rev = [wrap.format(x) for x in reversed(n)]
        body += "    let (mut u, mut c, mut got, out) = (v, 0, [<%s>::default(); %d], [%s]);\n    let r = u.map(|x| {\n        if c < %d {\n            got[c] = x;\n        }\n        c += 1;\n        out[if c > %d { 0 } else { c - 1 }]\n    });\n    ens!(%d, c == %d);\n" % (T, D, ", ".join(rev), D, D, k, D)
        k += 1
        ens([eq("got[%d]" % i, n[i]) for i in range(D)])
        ens([eq("r." + AX[i], n[D - 1 - i]) for i in range(D)])
        vc("C24", "reads_" + nm, args, body)
        mm = ["b" + AX[i] for i in range(D)]
        vc("C24", "eq_" + nm, args + ["%s: %s" % (x, P) for x in mm],
           "    let (v, w) = (%s, %s);\n    let e = %s;\n    ens!(0, (v == w) == e);\n    ens!(1, (v != w) != e);\n" % (
               vec(T, D, n, wrap), vec(T, D, mm, wrap), " & ".join("(%s == %s)" % z for z in zip(n, mm))))
        # get at any index
        idx = "    let i = ((hi as usize) << 32) | lo as usize;\n"
        body = idx + "    let v = %s;\n    let g = v.get(i);\n" % vec(T, D, n, wrap)
        body += "    ens!(0, g.is_some() == (i < %d));\n" % D
        body += "    req!(i < %d);\n    let e = %s;\n    let g = g.unwrap();\n    ens!(1, %s);\n    ens!(2, %s);\n" % (
            D, "if i == 0 { %s } else if i == 1 { %s } else { %s }" % tuple((n + n)[:3]) if D == 3 else "if i == 0 { %s } else { %s }" % tuple(n), eq("g", "e"), eq("v[i]", "e"))
        vc("C24", "get_" + nm, args + ["hi: u32", "lo: u32"], body)
        body = idx + "    req!(i >= %d);\n    let v = %s;\n    let g = v[i];\n    ens!(0, (g == g) & (g != g));\n" % (D, vec(T, D, n, wrap))
        vc("C24", "index_%s__panics" % nm, args + ["hi: u32", "lo: u32"], body)
        # sequences of the wrong length, up to 6 items
        m = n + ["q%d" % i for i in range(6 - D)]
        body = "    req!((len <= 6) & (len != %d) & (how < 3));\n    let t: %s = " % (D, V)
        W = [wrap.format(x) for x in m]
        for L in [z for z in range(7) if z != D]:
            arr = "[%s; 0]" % W[0] if L == 0 else "[%s]" % ", ".join(W[:L])
            body += "%s{\n        let s = %s;\n        if how == 0 { Vector::from_slice(&s) } else if how == 1 { s.iter().copied().collect() } else { unhinted(&s).collect() }\n    }%s" % ("if len == %d " % L if L < 6 else "", arr, " else " if L < 6 else ";\n")
        body += "    ens!(0, (t.x == t.x) & (t.x != t.x));\n"
        vc("C24", "items_%s__panics" % nm, ["%s: %s" % (x, P) for x in m] + ["len: u8", "how: u8"], body)

# C25
def conv(x, T):
    return "%s as f64" % x


for T in ["f32", "F32", "i8", "i16", "u8", "u16"]:
    P = "f32" if T == "F32" else T
    wrap = "F32({})" if T == "F32" else "{}"
    tag = "w" if T == "F32" else T
    for D in (2, 3):
        a = ["a" + AX[i] for i in range(D)]
        b = ["b" + AX[i] for i in range(D)]
        pre = lambda xs: "    req!(%s);\n" % allof(["below(%s, 1e19)" % x for x in xs]) if P == "f32" else ""
        body = pre(a) + "    let t = %s;\n    req!((t >= 1e-36) & (t <= 1e38));\n" % " + ".join("sq(%s)" % conv(x, T) for x in a)
        body += "    let m = %s.magnitude() as f64;\n" % vec(T, D, a, wrap)
        body += "    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));\n    ens!(1, m * m <= 1.0612 * 1.0612 * t);\n"
        vc("C25", "magnitude_%sx%d" % (tag, D), ["%s: %s" % (x, P) for x in a], body, "poly uses=sqrt")
        pre2 = "    req!(%s);\n    req!(%s);\n" % (allof(["below(%s, f32::MAX)" % x for x in a + b]), allof(["(%s as f64 - %s as f64 <= 1e19) & (%s as f64 - %s as f64 >= -1e19)" % (x, y, x, y) for x, y in zip(a, b)])) if P == "f32" else ""
        body = pre2 + "    let t = %s;\n    req!((t >= 1e-36) & (t <= 1e38));\n" % " + ".join("sq(%s - %s)" % (conv(x, T), conv(y, T)) for x, y in zip(a, b))
        body += "    let m = %s.distance(%s) as f64;\n" % (vec(T, D, a, wrap), vec(T, D, b, wrap))
        body += "    ens!(0, (m >= 0.0) & (m * m >= 0.9999 * 0.9999 * t));\n    ens!(1, m * m <= 1.0612 * 1.0612 * t);\n"
        vc("C25", "distance_%sx%d" % (tag, D), ["%s: %s" % (x, P) for x in a + b], body, "poly uses=sqrt sums")
        if P == "f32":
            body = pre(a) + "    let t = %s;\n    req!((t >= 1e-36) & (t <= 1e38));\n" % " + ".join("sq(%s)" % conv(x, T) for x in a)
            body += "    let r = %s.normalized();\n" % vec(T, D, a, wrap)
            r = ["r.%s%s" % (AX[i], ".0" if T == "F32" else "") for i in range(D)]
            body += "    let n = %s;\n" % " + ".join("sq(%s as f64)" % x for x in r)
            body += "    ens!(0, n >= 0.94 * 0.94);\n    ens!(1, n <= 1.0002 * 1.0002);\n"
            k = 2
            for i in range(D):
                body += "    ens!(%d, %s as f64 * %s as f64 >= -1e-24);\n" % (k, r[i], a[i])
                k += 1
                for j in range(i):
                    body += "    ens!(%d, parallel(%s, %s, %s, %s));\n" % (k, r[i], r[j], a[i], a[j])
                    k += 1
            vc("C25", "normalized_%sx%d" % (tag, D), ["%s: %s" % (x, P) for x in a], body, "poly uses=sqrt")
# C27
for T in ["f32", "F32", "i8", "i16", "u8", "u16"]:
    P = "f32" if T == "F32" else T
    wrap = "F32({})" if T == "F32" else "{}"
    tag = "w" if T == "F32" else T
    if T == "F32":
        continue
    q, v = ["w", "x", "y", "z"], ["a", "b", "c"]
    body = "    req!(%s);\n" % allof(["below(%s, 1e9)" % x for x in q + (v if P == "f32" else [])])
    body += "    let (q, u) = (Quaternion::new(w, x, y, z), %s);\n    let (r, s) = (q.rotate(u), q * u);\n" % vec(T, 3, v, wrap)
    body += "    let (w, x, y, z) = (w as f64, x as f64, y as f64, z as f64);\n    let (a, b, c) = (a as f64, b as f64, c as f64);\n"
    rows = [
        ["w * w * a", "x * x * a", "-(y * y * a)", "-(z * z * a)", "2.0 * x * y * b", "-(2.0 * w * z * b)", "2.0 * x * z * c", "2.0 * w * y * c"],
        ["2.0 * x * y * a", "2.0 * w * z * a", "w * w * b", "-(x * x * b)", "y * y * b", "-(z * z * b)", "2.0 * y * z * c", "-(2.0 * w * x * c)"],
        ["2.0 * x * z * a", "-(2.0 * w * y * a)", "2.0 * y * z * b", "2.0 * w * x * b", "w * w * c", "-(x * x * c)", "-(y * y * c)", "z * z * c"],
    ]
    for i in range(3):
        body += "    let t = [%s];\n    ens!(%d, turned(r.%s, &t));\n    ens!(%d, turned(s.%s, &t));\n" % (", ".join(rows[i]), 2 * i, AX[i], 2 * i + 1, AX[i])
    vc("C27", "rotate_" + tag, ["%s: f32" % x for x in q] + ["%s: %s" % (x, P) for x in v], body, "poly")
out.append('''
#[inline(always)]
fn sq(x: f64) -> f64 {
    x * x
}
/// r differs from the sum of the terms by at most 2e-6 of the sum of their magnitudes (1e-30 for underflow)
#[inline(always)]
fn turned(r: f32, t: &[f64]) -> bool {
    let (mut s, mut m) = (0.0, 0.0);
    for x in t {
        s += *x;
        m += x.abs();
    }
    let d = r as f64 - s;
    let e = 2e-6 * m + 1e-30;
    (d <= e) & (d >= -e)
}
/// a*d and b*c agree up to rounding
#[inline(always)]
pub fn parallel(a: f32, b: f32, c: f32, d: f32) -> bool {
    let (p, q) = (a as f64 * d as f64, b as f64 * c as f64);
    let e = 1e-6 * (p.abs() + q.abs()) + 1e-24;
    (p - q <= e) & (p - q >= -e)
}
''')

out.append("\nvcs! {\n" + "".join(vcs) + "}\n")
open("/verif/contracts/src/vector.rs", "w").write("".join(out))
p = "/verif/contracts/obligations.txt"
keep = [l for l in open(p).read().splitlines() if "# generated" not in l]
open(p, "w").write("\n".join(keep + [s + " # generated" for s in specs]) + "\n")
