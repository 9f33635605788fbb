#!/usr/bin/env python3
"""Decides one property: verifies its contracts on the current source of /repo.

usage: check.py Cnn [--thorough] | check.py --setup

 1. compiles /repo together with the contracts to LLVM IR (the compiler's own output)
 2. runs the verifier (fcv) on every contract of the property: one obligation per clause and panic site
 3. replays counterexamples on the compiled real code; an obligation the verifier could not decide is
    settled by exhaustive execution when the contract has a single 32-bit argument (reported as such),
    otherwise it is a violation without a failing input
 4. executes every contract on the real code for a moment: shows that the preconditions are satisfiable
    and cross-checks the verifier
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
FCV = os.path.join(B, "fcv/release/fcv")
NAT = os.path.join(B, "native/release/native")
LIMIT = 840.0  # of the 900 s a check has
T0 = time.time()

TRUSTED = [
    "rustc 1.99.1 front end: the LLVM IR it emits for /repo (opt-level 0, overflow checks and debug assertions on) is the code under proof; the LLVM optimiser and code generator are not covered",
    "fcv: IR parser, symbolic executor, term simplifier, box and polynomial back ends (in /verif/fcv)",
    "z3 4.8.12 and cvc5 1.1.2: answers 'unsat'",
    "IEEE 754 binary32 arithmetic, round to nearest even, NaN payloads and NaN signs of arithmetic results unspecified",
]


def sh(cmd, timeout, env=None):
    """runs a command in its own process group; returns (exit code or None on timeout, output)"""
    e = dict(os.environ, CARGO_NET_OFFLINE="true")
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=V)
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def contract_clauses():
    """contract function -> numbers of its clauses, from the text of the contracts"""
    res = {}
    for f in sorted(os.listdir(V + "/contracts/src")):
        for part in re.split(r"\nfn (?=vc__)", open(V + "/contracts/src/" + f).read())[1:]:
            res[part.split("(")[0]] = sorted(set(int(x) for x in re.findall(r"ens!\(\s*(\d+)", part.split("\n}")[0])))
    return res


def left():
    return LIMIT - (time.time() - T0)


def build_fcv():
    return sh(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/fcv/Cargo.toml"], 600,
              {"CARGO_TARGET_DIR": B + "/fcv"})


def build_native():
    return sh(["cargo", "build", "--release", "--offline", "--manifest-path", V + "/native/Cargo.toml"], 600,
              {"CARGO_TARGET_DIR": B + "/native"})


def build_ir():
    rc, out = sh(["sh", V + "/tools/build_ir.sh", B + "/ll"], 300)
    if rc != 0:
        try:
            out += open(B + "/ll.log").read()[-3000:]
        except OSError:
            pass
        return None, out
    return out.strip().splitlines()[-1], out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.specs = []
        for l in open(V + "/contracts/obligations.txt"):
            w = l.split("#")[0].split()
            if len(w) >= 3 and w[0] == prop:
                self.specs.append((w[1], w[2].split(","), dict((x.split("=", 1) + [""])[:2] for x in w[3:])))
        self.executed = [s for s in self.specs if s[1] == ["run"]]  # beyond the bound of the proofs
        self.specs = [s for s in self.specs if s[1] != ["run"]]
        self.violations = []
        self.broken = False  # (vc, obligation, args or None, detail)
        self.notes = []
        self.kinds = {}
        self.replay = None

    def native(self, *a, timeout):
        rc, out = sh([NAT] + list(a), timeout)
        return rc, out.strip()

    def panics_flag(self, opts):
        return ["--panics-ok"] if opts.get("nopanic") == "0" else []

    def replay_args(self, vc, args, opts, timeout=20):
        """code of the contract for these arguments on the real code"""
        rc, out = self.native("eval", vc, *[str(a) for a in args], *self.panics_flag(opts), timeout=timeout)
        if rc is None:
            return "hang"
        try:
            return int(out.splitlines()[-1])
        except (ValueError, IndexError):
            return "crash"  # the process died

    def search(self, vc, opts, secs, exhaustive=False, seed=None):
        a = ["search", vc, "--secs", str(secs), "--seed", str(seed or self.seed)] + self.panics_flag(opts)
        if exhaustive:
            a.append("--exhaustive")
        rc, out = self.native(*a, timeout=secs + 15)
        m = re.search(r"tried=(\d+) held=(\d+) complete=(\w+) found=(\S+)(?: code=(\d+))?", out)
        if not m:
            return dict(tried=0, held=0, complete=False, found=None, code=None, error="no answer (code %s): %s" % (rc, out[-200:]))
        f = None if m.group(4) == "none" else [int(x, 16) for x in m.group(4).split(",")]
        return dict(tried=int(m.group(1)), held=int(m.group(2)), complete=m.group(3) == "true", found=f,
                    code=int(m.group(5)) if m.group(5) else None, error=None)

    def clause(self, code):
        if code == 255:
            return "nopanic"
        return "post%d" % (code - 16) if isinstance(code, int) and code >= 16 else str(code)

    def run(self):
        with ThreadPoolExecutor(3) as ex:
            f1, f2, f3 = ex.submit(build_fcv), ex.submit(build_native), ex.submit(build_ir)
            r1, r2, (ir, irlog) = f1.result(), f2.result(), f3.result()
        if r1[0] != 0:
            print("cannot build the verifier:\n" + r1[1][-3000:])
            return 2
        if r2[0] != 0 or ir is None:
            log = (r2[1] if r2[0] != 0 else irlog)[-4000:]
            print("the contracts no longer compile against /repo")
            self.violations.append(("(build)", "compilation of the contracts against /repo", None, log))
            return self.finish([], {}, 0)
        rc, out = self.native("list", timeout=20)
        for l in out.splitlines():
            w = l.split()
            self.kinds[w[0]] = w[1].split(",") if len(w) > 1 else []
        results = {}
        holds, settled = set(), {}
        heavy = [s for s in self.specs if "heavy" in s[2]]
        light = [s for s in self.specs if "heavy" not in s[2]]

        def verify(spec, tl):
            vc = spec[0]
            outp = "%s/out/%s.json" % (B, vc)
            os.makedirs(B + "/out", exist_ok=True)
            if os.path.exists(outp):
                os.remove(outp)
            cap = min(float(spec[2].get("cap", 600 if self.tier == "quick" else 1500)), max(left() - 80, 5))
            if vc in early:
                tl = min(tl, 6)
            if self.broken:
                # a failing input is known already: the other contracts get less time
                tl = min(tl, 20)
            rc, out = sh([FCV, "--ir", ir, "--spec", V + "/contracts/obligations.txt", "--prop", self.prop, "--vc", vc,
                          "--tmp", B + "/tmp/" + vc, "--timeout", str(tl), "--cap", str(cap), "--tier", self.tier, "--out", outp,
                          "--holds", ",".join(sorted(x for x in holds if x != vc))], cap + 15)
            try:
                return json.load(open(outp))[0]
            except (OSError, ValueError, IndexError):
                return dict(vc=vc, status="verifier %s: %s" % ("timed out" if rc is None else "failed", out[-800:]), secs=0, functions=[], obligations=[])

        # a violation that a moment of execution shows needs no long proof attempts
        early = set()

        def glance(spec):
            if self.kinds.get(spec[0]):
                s = self.search(spec[0], spec[2], 0.25)
                if s["found"] is not None:
                    early.add(spec[0])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(glance, self.specs + self.executed))
        self.broken = bool(early)
        tl = 200 if self.tier == "quick" else 400
        callees = set(x for s in self.specs for x in (s[2].get("uses") or "").split(",") if x)
        def look(s, r):
            for o in r["obligations"]:
                if not o["ok"] and o.get("cex") and len(o["cex"]) == len(self.kinds.get(s[0], [])) and self.replay_args(s[0], o["cex"], s[2]) not in (1, 2):
                    self.broken = True
                    return
        def prove_heavy(s):
            r = results[s[0]] = verify(s, tl)
            look(s, r)
            ok = r["status"] == "ok" and all(o["ok"] for o in r["obligations"])
            if s[0].split("__")[-1] in callees:
                # the contract of a callee: settled once, then it stands for the calls
                if ok:
                    holds.add(s[0])
                elif self.kinds.get(s[0]) == ["f32"] and not any(
                        o.get("cex") and len(o["cex"]) == 1 and self.replay_args(s[0], o["cex"], s[2]) not in (1, 2) for o in r["obligations"]) and s[0] not in early and left() > 200:
                    settled[s[0]] = self.search(s[0], s[2], max(min(left() - 150, 250), 5), exhaustive=True)
                    if settled[s[0]]["complete"] and settled[s[0]]["found"] is None:
                        holds.add(s[0])
        for s in heavy:
            if not s[2].get("uses"):
                prove_heavy(s)
        with ThreadPoolExecutor(4) as ex:
            for s, r in zip(light, ex.map(lambda s: verify(s, tl), light)):
                results[s[0]] = r
        for s in heavy:
            if s[2].get("uses"):
                prove_heavy(s)
        # counterexamples, undecided obligations
        undecided = []
        for vc, backs, opts in self.specs:
            r = results[vc]
            bad = [o for o in r["obligations"] if not o["ok"]]
            if r["status"] != "ok":
                bad = [dict(name=vc + ":(all)", ok=False, by="", secs=0, note=r["status"], cex=None)] + bad
            if not bad:
                continue
            hit = False
            for o in bad:
                if o.get("cex") is not None and len(o["cex"]) == len(self.kinds.get(vc, [])):
                    code = self.replay_args(vc, o["cex"], opts)
                    if code not in (1, 2):
                        self.violations.append((vc, o["name"], o["cex"], "%s; on the real code: %s" % (o["note"], self.clause(code))))
                        hit = True
                        break
            if not hit:
                undecided.append((vc, opts, bad))
        enumerated = {}
        for vc, opts, bad in undecided:
            k = self.kinds.get(vc, [])
            single = k in (["f32"], ["u32"], ["i32"]) or (0 < len(k) and all(x in ("i8", "u8", "i16", "u16", "bool") for x in k) and sum(16 if "16" in x else 8 for x in k) <= 32)
            what = ", ".join(o["name"] for o in bad[:3]) + (" and %d more" % (len(bad) - 3) if len(bad) > 3 else "")
            why = "; ".join(sorted(set(o["note"] for o in bad if o["note"])))[:1500]
            if k == []:
                code = self.replay_args(vc, [], opts)
                if code not in (1, 2):
                    self.violations.append((vc, what, [], "%s; on the real code: %s" % (why, self.clause(code))))
                    continue
                enumerated[vc] = 1
                self.notes.append("%s: undecided by the verifier (%s); the contract has no arguments and holds when executed" % (vc, why[:200]))
                continue
            self.broken = self.broken or any(v[2] is not None for v in self.violations)
            if "upgrade" in opts:
                # the same clauses for every length: other contracts decide them up to a bound
                s = self.search(vc, opts, 3 if self.broken else 12)
                if s["found"] is not None:
                    self.violations.append((vc, what, s["found"], "%s; search on the real code: %s" % (why, self.clause(s["code"]))))
                else:
                    self.notes.append("%s: not shown for every length (%s); only the contracts for single lengths decide it" % (vc, why[:200]))
                continue
            s = settled.get(vc) or self.search(vc, opts, min(3 if self.broken else 20 if self.tier == "quick" else 60, max(left() / 4, 3)))
            if s["found"] is not None:
                self.violations.append((vc, what, s["found"], "%s; search on the real code: %s" % (why, self.clause(s["code"]))))
                continue
            if single and left() > 20 and not self.broken:
                if not s["complete"]:
                    s = self.search(vc, opts, max(left() - 15, 5), exhaustive=True)
                if s["found"] is not None:
                    self.violations.append((vc, what, s["found"], "%s; enumeration on the real code: %s" % (why, self.clause(s["code"]))))
                    continue
                if s["complete"]:
                    enumerated[vc] = s["tried"]
                    self.notes.append("%s: undecided by the verifier (%s); decided by executing the real code on all %d arguments" % (vc, why[:200], s["tried"]))
                    continue
            if self.broken:
                self.notes.append("%s: %s undecided in the shorter time given after a failing input was found (%s)" % (vc, what, why[:200]))
                continue
            self.violations.append((vc, what, None, why + (" (search: %s)" % s["error"] if s.get("error") else "")))
        # cross-check and vacuity witnesses
        cross = {}
        for vc, backs, opts in self.executed:
            if self.kinds.get(vc) == []:
                code = self.replay_args(vc, [], opts, timeout=150)
                cross[vc] = dict(tried=1, held=int(code == 1), complete=True, found=[] if code not in (1, 2) else None, code=code, error=None)
                if code not in (1, 2):
                    self.violations.append((vc, "execution of the contract", [], "on the real code: %s" % self.clause(code)))
                continue
            s = cross[vc] = self.search(vc, opts, 60, exhaustive=True) if "all" in opts else self.search(vc, opts, 4 if self.tier == "quick" else 120)
            if "all" in opts and s["found"] is None and not s["error"] and not s["complete"]:
                s["error"] = "the bounded domain was not executed completely"
            if s["found"] is not None:
                self.violations.append((vc, "execution of the contract", s["found"], "on the real code: %s" % self.clause(s["code"])))
            elif s["error"]:
                self.violations.append((vc, "execution of the contract", None, s["error"]))
        if not self.violations:
            per = 0.4 if self.tier == "quick" else max(2.0, min(60.0, (left() - 60) / max(len(self.specs), 1)))
            for vc, backs, opts in self.specs:
                if self.kinds.get(vc) == []:
                    code = self.replay_args(vc, [], opts)
                    s = dict(tried=1, held=int(code == 1), complete=True, found=[] if code not in (1, 2) else None, code=code, error=None)
                else:
                    ex = self.tier == "thorough" and len(self.kinds[vc]) == 1 and "upgrade" not in opts
                    s = self.search(vc, opts, max(per, 90) if ex else per, exhaustive=ex)
                    if s["held"] == 0 and s["found"] is None and not s["error"]:
                        s = self.search(vc, opts, 5, seed=self.seed + 77)
                cross[vc] = s
                if s["found"] is not None:
                    self.violations.append((vc, "execution of the contract", s["found"], "on the real code: %s" % self.clause(s["code"])))
                elif s["held"] == 0:
                    self.notes.append("%s: no execution met the precondition (%s)" % (vc, s["error"] or "%d tried" % s["tried"]))
        return self.finish([results[s[0]] for s in self.specs], cross, enumerated)

    def known(self):
        k = []
        try:
            for l in open(V + "/KNOWN_FINDINGS"):
                m = re.match(r"open: property=(\S+) vc=(\S+) clause=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    k.append(m.groups())
        except OSError:
            pass
        return k

    def finish(self, results, cross, enumerated):
        enumerated = enumerated or {}
        obl = [o for r in results for o in r["obligations"]]
        # clauses that the simplifier removed from the result of the contract function
        clauses = contract_clauses()
        for r in results:
            if r["status"] == "ok":
                names = [o["name"] for o in r["obligations"]]
                whole = [o for o in r["obligations"] if o["name"] == r["vc"] + ":post"]
                if whole and whole[0]["by"] != "simplifier":
                    continue  # the clauses were decided together
                if clauses.get(r["vc"]):
                    r["obligations"] = [o for o in r["obligations"] if o not in whole]
                for c in clauses.get(r["vc"], []):
                    nm = "%s:post%d" % (r["vc"], c)
                    if nm not in names:
                        r["obligations"].append(dict(name=nm, ok=True, by="simplifier", secs=0, note="", cex=None))
        obl = [o for r in results for o in r["obligations"]]
        # an obligation counts as discharged only when the verifier accepted it
        dis = [o for o in obl if o["ok"]]
        by = {}
        for o in dis:
            k = re.sub(r", last \d+ path conditions", "", o["by"])
            x = by.setdefault(k, [0, 0.0])
            x[0] += 1
            x[1] += o["secs"]
        fns = sorted(set(f for r in results for f in r["functions"]))
        known = self.known()
        real = []
        for v in self.violations:
            kf = [k for k in known if k[1] == v[0] and re.search(r"\b%s\b" % re.escape(k[2]), v[1] + v[3])]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[0][3]))
            else:
                real.append(v)
        bound = json.load(open(V + "/tools/level_notes.json")).get(self.prop, {}).get("bound")
        if any("not shown for every length" in n for n in self.notes):
            bound = bound or "the slice lengths of the contracts listed as discharged"
        os.makedirs(V + "/evidence", exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other" if bound else "proof",
            "coverage": {
                **({"explanation": "bounded, not a proof of the whole property: " + ("" if self.executed and self.prop == "C29" else "every obligation is discharged for all values, but only for ") + bound} if bound else {}),
                "obligations": len(obl) + sum(1 for r in results if r["status"] != "ok"),
                "discharged": len(dis),
                "checker_cmd": "python3 /verif/check.py %s" % self.prop,
                "trusted_base": TRUSTED,
                "back_ends": {k: {"obligations": v[0], "solver_seconds": round(v[1], 2)} for k, v in sorted(by.items())},
                "functions_under_contract": fns,
                "contracts": [
                    {
                        "vc": r["vc"],
                        "status": r["status"],
                        "obligations": len(r["obligations"]),
                        "discharged": sum(1 for o in r["obligations"] if o["ok"]),
                        "seconds": r["secs"],
                        "details": r.get("details", ""),
                    }
                    for r in results
                ],
                "executed_beyond_the_bound_not_proved": [s[0] for s in self.executed],
                "decided_by_exhaustive_execution": enumerated,
                "executed_cross_check": {k: {"tried": s["tried"], "precondition_met_and_held": s["held"], "all_arguments": s["complete"]} for k, s in cross.items()},
                "obligation_names": [o["name"] for o in obl][:400],
            },
            "assumptions": self.assumptions(results) + self.notes,
            "wall_s": round(time.time() - T0, 2),
            "violations": len(real),
        }
        for v in real:
            os.makedirs(V + "/replay", exist_ok=True)
        tmp = V + "/evidence/%s.json.tmp" % self.prop
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, V + "/evidence/%s.json" % self.prop)
        print("%s: %d obligations, %d discharged, %d functions under contract, %.1f s" % (self.prop, ev["coverage"]["obligations"], len(dis), len(fns), ev["wall_s"]))
        for n in self.notes:
            print("note: " + n)
        # violations with a failing input first
        real.sort(key=lambda v: v[2] is None)
        for i, v in enumerate(real[:5]):
            path = "%s/replay/%s_%d.json" % (V, self.prop, i)
            vc, name, args, detail = v
            json.dump(
                {
                    "property": self.prop,
                    "contract": vc,
                    "obligation": name,
                    "args": args,
                    "args_hex": None if args is None else ["%#x" % a for a in args],
                    "kinds": self.kinds.get(vc),
                    "detail": detail,
                    "replay_cmd": None if args is None else self.replay.cmds.get(vc) if self.replay else "python3 /verif/check.py --setup && %s eval %s %s" % (NAT, vc, " ".join(str(a) for a in args)),
                    "verifier_output": [o for r in results if r["vc"] == vc for o in r["obligations"] if not o["ok"]][:20],
                },
                open(path, "w"),
                indent=1,
            )
            print("  %s violated (%s): %s" % (name, vc, detail[:300]))
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if args is not None else " no-failing-input-found"))
        return 1 if real else 0

    def assumptions(self, results):
        a = [
            "the reference functions floor, ceil, round, trunc of f32 are the IEEE roundToIntegral operations (exact SMT theory)",
            "the contracts in /verif/contracts/src state what properties.jsonl says",
            "no unsafe code, no concurrency and no external state in micromath; machine integers are exact bit vectors and overflow is an obligation",
        ]
        if any("upgrade" in s[2] for s in self.specs):
            if any("__next_" in s[0] for s in self.specs):
                a.append("contracts named next_*_all are the induction step over the positions of the iterator (and its start, position 0); that they cover every sequence of calls of next() is induction outside of the verifier")
            a.append("contracts named *_all: slices of at most 2^24 items; recursive floating point summation of n terms has relative error at most (n-1)*2^-24 of the sum of magnitudes (a theorem, not checked here)")
        for r in results:
            if r.get("assumptions"):
                a += [x for x in r["assumptions"] if x not in a]
        return a


def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    if "--setup" in a:
        for f in (build_fcv, build_native):
            rc, out = f()
            if rc != 0:
                print(out[-3000:])
                return 1
        return 0 if build_ir()[0] else 1
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if tier == "thorough":
        global LIMIT
        LIMIT = float(os.environ.get("VERIF_LIMIT", 3600))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(a[0], tier, seed)
    if a[0] == "C35":
        sys.path.insert(0, V + "/tools")
        from feature_check import Features
        c.replay = Features(c, V, B, FCV, sh, left)
        return c.replay.run()
    return c.run()


if __name__ == "__main__":
    sys.exit(main())
