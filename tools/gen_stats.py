#!/usr/bin/env python3
"""writes contracts/src/stats.rs: the contracts of C31 and C32 for every length up to the bounds below"""
import os
MEAN, VAR, DEV, CONV, TRIM = 16, 16, 16, 8, 8
LONG = [32, 64, 257, 300]
out = ['''//! Contracts of the statistics functions (C31, C32), one function per length: bounded.
//! Written by tools/gen_stats.py.
use crate::exact::{nan, same};
use crate::vector::below;
use crate::{ens, req, vcs};
use micromath::statistics::trim::Trim;
use micromath::statistics::{Mean, StdDev, Variance};
use micromath::F32;

/// r differs from s by at most k * 1.2e-7 of m (1e-40 for underflow)
#[inline(always)]
fn within(r: f64, s: f64, m: f64, k: f64) -> bool {
    let d = r - s;
    let e = k * 1.2e-7 * m + 1e-40;
    (d <= e) & (d >= -e)
}
''']
vcs, specs = [], []


def vc(prop, name, args, body, opts):
    vcs.append("fn vc__%s__%s(%s) {\n%s}\n" % (prop, name, ", ".join(args), body))
    specs.append("%s vc__%s__%s %s" % (prop, prop, name, opts))


def xs(n, t="f32"):
    return ["x%d: %s" % (i, t) for i in range(n)]


def arr(n, w="{}"):
    return "[%s]" % ", ".join(w.format("x%d" % i) for i in range(n))


for n in list(range(1, MEAN + 1)) + LONG:
    b = "    req!(%s);\n" % " & ".join("below(x%d, 1e15)" % i for i in range(n))
    b += "    let m = %s.iter().copied().mean();\n" % arr(n)
    b += "    let s = %s;\n" % " + ".join("x%d as f64" % i for i in range(n))
    b += "    let a = %s;\n" % " + ".join("(x%d as f64).abs()" % i for i in range(n))
    b += "    ens!(0, within(m as f64 * %d.0, s, a, %d.0));\n" % (n, n + 8)
    vc("C31", "mean_%d" % n, xs(n), b, "poly")
for n in list(range(2, VAR + 1)) + LONG:
    b = "    req!(%s);\n" % " & ".join("below(x%d, 1e15)" % i for i in range(n))
    b += "    let xs = %s;\n" % arr(n)
    b += "    let m = xs.iter().copied().mean() as f64;\n    let v = xs[..].variance();\n    let mut s = 0.0;\n"
    for i in range(n):
        b += "    let d = x%d as f64 - m;\n    s += d * d;\n" % i
    b += "    ens!(0, within(v as f64 * %d.0, s, s, %d.0));\n" % (n - 1, n + 8)
    vc("C31", "variance_%d" % n, xs(n), b, "poly sums")
for n in list(range(1, DEV + 1)) + LONG:
    b = "    let xs = %s;\n    ens!(0, same(xs[..].stddev(), F32(xs[..].variance()).sqrt().0));\n" % arr(n)
    vc("C31", "stddev_%d" % n, xs(n), b, "smt opaque=sqrt")
for t in ["i16", "u8"]:
    n = CONV
    b = "    let (ys, xs) = (%s, %s);\n" % (arr(n), arr(n, "{} as f32"))
    b += "    ens!(0, same(ys[..].variance(), xs[..].variance()));\n    ens!(1, same(ys[..].stddev(), xs[..].stddev()));\n"
    vc("C31", "converted_%s" % t, xs(n, t), b, "smt opaque=sqrt")


def trim(name, n, t, call, conv, args, opts, prep=""):
    b = prep + "    let xs = %s;\n    let fs = %s;\n" % (arr(n), arr(n, conv))
    b += "    let (m, d) = (fs.iter().copied().mean(), fs[..].stddev());\n"
    for i in range(n):
        b += "    req!((((fs[%d] - m).abs() / d) < %s) == (keep >> %d & 1 == 1));\n" % (i, t, i)
    b += "    let s = &xs[..];\n    let mut it = s.%s;\n" % call
    for i in range(n):
        b += "    if keep >> %d & 1 == 1 {\n" % i
        b += "        match it.next() {\n            Some(y) => ens!(0, %s),\n            None => ens!(1, false),\n        }\n    }\n" % (
            "y.to_bits() == x%d.to_bits()" % i if conv == "{}" else "y == x%d" % i)
    b += "    ens!(2, it.next().is_none());\n"
    vc("C32", name, args, b, opts + " for=0:0..%d" % (1 << n))


for n in range(1, TRIM + 1):
    trim("trim_at_%d" % n, n, "t", "trim_at(t)", "{}", ["keep: u16", "t: f32"] + xs(n), "smt opaque=sqrt")
    trim("trim_%d" % n, n, "2.0", "trim()", "{}", ["keep: u16"] + xs(n), "smt opaque=sqrt")
vc("C32", "trim_empty", ["t: f32"], "    let xs: [f32; 0] = [];\n    ens!(0, (&xs[..]).trim_at(t).next().is_none());\n    ens!(1, (&xs[..]).trim().next().is_none());\n", "smt")
b = """    struct Plain([f32; 4], usize);
    impl Iterator for Plain {
        type Item = f32;
        fn next(&mut self) -> Option<f32> {
            let r = self.0.get(self.1).copied();
            self.1 += 1;
            r
        }
    }
    ens!(0, same(Plain([x0, x1, x2, x3], 0).mean(), [x0, x1, x2, x3].iter().copied().mean()));
"""
vc("C31", "mean_unhinted", xs(4), b, "smt")
# the other ways to read the iterator, at the start and after one call of next()
n = 3
b = "    let xs = %s;\n    let s = &xs[..];\n    let (m, d) = (s.iter().copied().mean(), s.stddev());\n" % arr(n)
for i in range(n):
    b += "    req!((((xs[%d] - m).abs() / d) < t) == (keep >> %d & 1 == 1));\n" % (i, i)
b += "    let (mut all, mut c) = ([0.0f32; %d], 0usize);\n" % (n + 1)
for i in range(n):
    b += "    if keep >> %d & 1 == 1 {\n        all[c] = x%d;\n        c += 1;\n    }\n" % (i, i)
b += """    let bits = |r: Option<f32>, k: usize| if k < c { r.is_some() & (r.unwrap_or(0.0).to_bits() == all[k].to_bits()) } else { r.is_none() };
    let (lo, hi) = s.trim_at(t).size_hint();
    ens!(0, (lo <= c) & (hi.is_none() | (hi.unwrap_or(9) >= c)));
    ens!(1, s.trim_at(t).count() == c);
    ens!(2, bits(s.trim_at(t).last(), if c == 0 { 0 } else { c - 1 }));
"""
k = 3
for j in range(n):
    b += "    let mut it = s.trim_at(t);\n    let (p, q) = (it.nth(%d), it.next());\n    ens!(%d, bits(p, %d));\n    ens!(%d, bits(q, %d) | (%d >= c));\n" % (j, k, j, k + 1, j + 1, j)
    k += 2
b += """    let mut got = [0.0f32; %d];
    let r = s.trim_at(t).fold(0usize, |r, x| {
        if r < %d {
            got[r] = x;
        }
        r + 1
    });
    ens!(%d, r == c);
    ens!(%d, %s);
    let mut it = s.trim_at(t);
    if it.next().is_some() {
        let (lo, hi) = it.size_hint();
        ens!(%d, (lo <= c - 1) & (hi.is_none() | (hi.unwrap_or(9) >= c - 1)));
        ens!(%d, it.count() == c - 1);
        let mut it = s.trim_at(t);
        let _ = it.next();
        ens!(%d, bits(it.last(), if c == 1 { 4 } else { c - 1 }));
    }
""" % (n, n, k, k + 1, " & ".join("(got[%d].to_bits() == all[%d].to_bits())" % (i, i) for i in range(n)), k + 2, k + 3, k + 4)
vc("C32", "reads_3", ["keep: u16", "t: f32"] + xs(n), b, "smt opaque=sqrt for=0:0..8")
trim("trim_at_i16", 3, "t", "trim_at(t)", "{} as f32", ["keep: u16", "t: f32"] + xs(3, "i16"), "smt opaque=sqrt")

out.append("vcs! {\n" + "\n".join(vcs) + "}\n")
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(root + "/contracts/src/stats.rs", "w").write("\n".join(out))
p = root + "/contracts/obligations.txt"
old = [l for l in open(p).read().splitlines() if not l.endswith("# by gen_stats")]
open(p, "w").write("\n".join(old + [s + " # by gen_stats" for s in specs]) + "\n")
