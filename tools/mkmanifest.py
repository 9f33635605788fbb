#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/obligations.txt, properties.jsonl and the notes below"""
import json
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = {}
for l in open(V + "/contracts/obligations.txt"):
    w = l.split("#")[0].split()
    if len(w) >= 3 and w[2] != "run":
        claimed.setdefault(w[0], set()).update(w[2].split(","))
claimed["C35"] = {"equiv"}  # tools/feature_check.py
notes = json.load(open(V + "/tools/level_notes.json"))
common = ("All inputs of the stated domain, on the LLVM IR rustc emits for /repo's current source (overflow checks on). "
          "Trusts rustc's IR, the fcv verifier and the SMT solvers named in the evidence. ")
tech = {"smt": "SMT (bit vectors and IEEE floats)", "box": "interval/Taylor enclosures of the real IR", "poly": "polynomial rounding-error analysis",
        "equiv": "symbolic execution of the two builds (relational contract: same result on the same arguments) and rustc against a sysroot with libcore only"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed and not notes.get(i, {}).get("hold"):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": "contract-based deductive verification: function contracts compiled with the real code, every obligation discharged by " + ", ".join(tech[b] for b in ("smt", "box", "poly") if b in claimed[i]),
            "level": notes.get(i, {}).get("level", "proof"),
            "level_note": common + notes.get(i, {}).get("note", ""),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no contract of this property has been discharged yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts use its public API only. Commits in /repo are fix: commits, listed in KNOWN_FINDINGS."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
