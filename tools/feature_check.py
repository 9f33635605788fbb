"""C35: feature sets.

For every subset of the cargo features
 - the crate and the probes compile against a sysroot that has libcore only (obligation `<set>:compile`);
 - the verifier proves for every probe of that build (one per public function available under the set,
   see features/src/lib.rs) that it returns on the same arguments, and with the same result, as in the
   build with all features (obligation `<set>:<probe>`), from the LLVM IR of the two builds.
"""
import glob, itertools, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

OWN = ["num-traits", "quaternion", "statistics", "vector"]  # the probes depend on these
TARGET = "x86_64-unknown-linux-gnu"


class Features:
    def __init__(self, c, V, B, FCV, sh, left):
        self.c, self.V, self.B, self.FCV, self.sh, self.left = c, V, B, FCV, sh, left
        self.cmds = {}

    def sysroot(self):
        """libcore without the rest of the standard library"""
        root = self.sh(["rustc", "--print", "sysroot"], 20)[1].strip()
        d = "%s/sysroot/lib/rustlib/%s/lib" % (self.B, TARGET)
        os.makedirs(d, exist_ok=True)
        for f in glob.glob("%s/lib/rustlib/%s/lib/*" % (root, TARGET)):
            n = os.path.basename(f)
            if re.match(r"lib(core|compiler_builtins)-", n) and not os.path.exists(d + "/" + n):
                os.symlink(f, d + "/" + n)
        return self.B + "/sysroot"

    def features(self):
        rc, out = self.sh(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path", "/repo/Cargo.toml"], 60)
        for l in out.splitlines():
            if l.startswith("{"):
                return sorted(json.loads(l)["packages"][0]["features"])
        return None

    def flag(self, fs):
        return ",".join(f if f in OWN else "micromath/" + f for f in fs)

    def build(self, fs, sysroot, crate="features"):
        """(modules or None, log)"""
        cmd = ["cargo", "build", "--offline", "--target", TARGET, "--manifest-path", "%s/%s/Cargo.toml" % (self.V, crate),
               "--features", self.flag(fs), "--message-format=json"]
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=self.B + "/feat", RUSTFLAGS="--emit=llvm-ir --sysroot " + sysroot)
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return None, "the build takes longer than 300 s"
        mods, log = [], ""
        for l in p.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                log += "%s: %s\n" % (d["target"]["name"], d["message"].get("rendered") or d["message"]["message"])
            if d.get("reason") == "compiler-artifact":
                for f in d["filenames"]:
                    if f.endswith(".rmeta") and "/%s/" % TARGET in f:
                        ll = os.path.join(os.path.dirname(f), os.path.basename(f)[3:-6] + ".ll")
                        if os.path.exists(ll):
                            mods.append(ll)
        return (mods, "") if p.returncode == 0 else (None, log or p.stderr[-3000:])

    def native(self, fs):
        """program that executes the probes of this feature set; None when it cannot be built"""
        d = "%s/run/%s" % (self.B, "+".join(fs) or "none")
        rc, out = self.sh(["cargo", "build", "--offline", "--manifest-path", self.V + "/features/run/Cargo.toml", "--features", self.flag(fs)], 200,
                          {"CARGO_TARGET_DIR": d})
        return d + "/debug/run" if rc == 0 else None

    def trace(self, exe, names, n, seed):
        rc, out = self.sh([exe, "trace", ",".join(names), str(n), str(seed)], 120)
        return [l for l in out.splitlines() if l.startswith("probe__")] if rc == 0 else None

    def differ(self, a, b, names, n, seed):
        """a probe and arguments on which the two programs differ"""
        with ThreadPoolExecutor(2) as ex:
            x, y = ex.map(lambda e: self.trace(e, names, n, seed), (a, b))
        if x is None or y is None:
            return None, 0
        # the probes common to both, in the same order
        for l, m in zip(x, y):
            if l != m:
                (p, v, r), (q, w, s) = l.split(" "), m.split(" ")
                if p == q and v == w:
                    return (p, [int(t) for t in v.split(",") if t], r, s), len(x)
        return None, len(x)

    def run(self):
        c, t = self.c, self.c.tier
        with ThreadPoolExecutor(2) as ex:
            f = ex.submit(self.sh, ["cargo", "build", "--release", "--offline", "--manifest-path", self.V + "/fcv/Cargo.toml"], 600, {"CARGO_TARGET_DIR": self.B + "/fcv"})
            sysroot = self.sysroot()
            feats = self.features()
            if not feats:
                c.violations.append(("(build)", "cargo metadata of /repo", None, "no features listed"))
                return c.finish([], {}, 0)
            if len(feats) <= 7:
                sets = [s for k in range(len(feats) + 1) for s in itertools.combinations(feats, k)]
            else:
                sets = sorted(set(s for k in (0, 1, 2, len(feats) - 1, len(feats)) for s in itertools.combinations(feats, k)), key=len)
                c.notes.append("more than 7 features: only the sets of at most two, of all but one and of all features")
            full = sets[-1]
            built, logs, res = {}, {}, {}
            for s in sets:
                t0 = time.time()
                built[s], logs[s] = self.build(s, sysroot)
                name = "+".join(s) or "none"
                res[s] = dict(vc=name, status="ok", secs=0, functions=[], obligations=[dict(
                    name=name + ":compile", ok=built[s] is not None, by="rustc, core only", secs=round(time.time() - t0, 2), note=logs[s][:1500], cex=None)])
            r = f.result()
            if r[0] != 0:
                print("cannot build the verifier:\n" + r[1][-3000:])
                return 2
        ok = [s for s in sets if built[s] is not None]
        for s in sets:
            if built[s] is None:
                name = "+".join(s) or "none"
                # the crate compiles, but not the probes: something is missing that a larger set has,
                # or (when no larger set compiles) the probes no longer fit the code
                alone = self.alone(s, sysroot)
                args = [] if not alone[0] or any(set(s) < set(x) for x in ok) else None
                c.violations.append((name, name + ":compile", args, "features {%s}: %s" % (", ".join(s), (alone[1] or logs[s])[:2500])))
                self.cmds[name] = alone[2] if not alone[0] else "cargo build with the features {%s} of %s" % (", ".join(s), self.V + "/features")
        if not ok:
            return c.finish([res[s] for s in sets], {}, {})
        ref = full if built[full] is not None else max(ok, key=len)
        todo = [s for s in ok if s != ref]

        def equiv(s, tl, only=None):
            name = "+".join(s) or "none"
            out = "%s/out/equiv_%s%s.json" % (self.B, name, "" if only is None else "_" + only)
            os.makedirs(self.B + "/out", exist_ok=True)
            if os.path.exists(out):
                os.remove(out)
            cap = max(min(self.left() - 60, 300), 10)
            rc, log = self.sh([self.FCV, "--ir", ",".join(built[ref]), "--equiv", ",".join(built[s]), "--tmp", "%s/tmp/equiv_%s%s" % (self.B, name, only or ""),
                               "--timeout", str(tl), "--cap", str(cap), "--out", out] + (["--only", only] if only else []), cap + 30)
            try:
                return json.load(open(out))
            except (OSError, ValueError):
                return dict(probes=[dict(name="(all)", ok=False, by="", secs=0, note="verifier %s: %s" % ("timed out" if rc is None else "failed", log[-600:]), cex=None)], functions=[])
        with ThreadPoolExecutor(8) as ex:
            for s, r in zip(todo, ex.map(lambda s: equiv(s, 3), todo)):
                name = "+".join(s) or "none"
                for o in r["probes"]:
                    res[s]["obligations"].append(dict(o, name=name + ":" + o["name"]))
                res[s]["functions"] = r["functions"]
                res[s]["secs"] = round(sum(o["secs"] for o in r["probes"]), 2)
        bad = [(s, o) for s in todo for o in res[s]["obligations"] if not o["ok"]]
        exes = {}

        def exe(s):
            if s not in exes:
                exes[s] = self.native(s)
            return exes[s]
        if bad:
            # the smallest feature sets first
            bad.sort(key=lambda x: len(x[0]))
            found = False
            t1 = time.time()
            for s, o in bad:
                p = o["name"].split(":")[-1]
                if time.time() - t1 > 120 or self.left() < 120 or not exe(ref) or not exe(s):
                    break
                if o["cex"] is not None:
                    a, b = (self.sh([exe(x), "eval", p] + [str(v) for v in o["cex"]], 20)[1].strip() for x in (ref, s))
                    if a != b:
                        self.report(s, ref, p, o["cex"], a, b, o["note"])
                        found = True
                        break
            if not found:
                for s in sorted(set(s for s, o in bad), key=len)[:6]:
                    names = [o["name"].split(":")[-1] for x, o in bad if x == s]
                    if self.left() < 120 or not exe(ref) or not exe(s):
                        break
                    d, n = self.differ(exe(ref), exe(s), names, 20000 if len(names) < 20 else 3000, c.seed)
                    if d:
                        self.report(s, ref, d[0], d[1], d[2], d[3], "undecided by the verifier; search")
                        found = True
                        break
            if not found:
                # no failing input: the proof gets the remaining time
                def again(x):
                    s, o = x
                    if self.left() < 100 or o["name"].endswith("(all)"):
                        return
                    r = equiv(s, 60, o["name"].split(":")[-1])["probes"]
                    if r and r[0]["ok"]:
                        o.update(r[0], name=o["name"])
                    elif r:
                        o["note"] = r[0]["note"]
                with ThreadPoolExecutor(4) as ex:
                    list(ex.map(again, bad))
                for s, o in bad:
                    if not o["ok"]:
                        c.violations.append((res[s]["vc"], o["name"], None, "against the build with the features {%s}: %s" % (", ".join(ref), o["note"])))
        cross = {}
        if not c.violations:
            # execution of the smallest and, in the thorough tier, of every set
            pick = [s for s in todo if not s] if t == "quick" else todo
            if exe(ref):
                for s in pick:
                    if self.left() < 60 or not exe(s):
                        continue
                    names = [o["name"].split(":")[-1] for o in res[s]["obligations"][1:]]
                    d, n = self.differ(exe(ref), exe(s), names, 200 if t == "quick" else 2000, c.seed)
                    cross[res[s]["vc"]] = dict(tried=n, held=n, complete=False)
                    if d:
                        self.report(s, ref, d[0], d[1], d[2], d[3], "execution of the two builds")
        return c.finish([res[s] for s in sets], cross, {})

    def alone(self, s, sysroot):
        """(builds?, log, command) of the crate by itself"""
        cmd = ["cargo", "build", "--offline", "--target", TARGET, "--manifest-path", "/repo/Cargo.toml", "--no-default-features", "--features", ",".join(s)]
        rc, out = self.sh(cmd, 200, {"CARGO_TARGET_DIR": self.B + "/feat_alone", "RUSTFLAGS": "--sysroot " + sysroot})
        return rc == 0, "" if rc == 0 else out[-2500:], "RUSTFLAGS='--sysroot %s' CARGO_TARGET_DIR=%s %s" % (sysroot, self.B + "/feat_alone", " ".join(cmd))

    def report(self, s, ref, p, args, a, b, how):
        name = "+".join(s) or "none"
        self.c.violations.append((name, "%s:%s" % (name, p), args, "%s: %s with the features {%s}, %s with {%s}" % (how, a, ", ".join(ref), b, ", ".join(s))))
        self.cmds[name] = "for d in %s %s; do %s/run/$d/debug/run eval %s %s; done" % ("+".join(ref), name, self.B, p, " ".join(str(x) for x in args))
