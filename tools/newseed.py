#!/usr/bin/env python3
"""newseed.py ID PROP "needs" "breaks" file old new  < main.rs   -- writes /verif/seeded/ID from an edit of /repo's HEAD and a demo program
(file/old/new may repeat for several sites)"""
import json, os, subprocess, sys, shutil, tempfile
i, prop, needs, breaks = sys.argv[1:5]
edits = sys.argv[5:]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed")
r = w + "/repo"
subprocess.check_call(["cp", "-a", "/repo", r])
subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
for f, o, n in zip(edits[0::3], edits[1::3], edits[2::3]):
    s = open(r + "/" + f).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(r + "/" + f, "w").write(s.replace(o, n))
patch = subprocess.check_output(["git", "-C", r, "diff"]).decode()
open(d + "/patch.diff", "w").write(patch)
open(d + "/main.rs", "w").write(sys.stdin.read())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for the demonstrated inputs
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
micromath = { path = "$R", default-features = false, features = ["quaternion", "statistics", "vector"%s] }
%sEOF
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" cargo run -q --offline
''' % ((', "num-traits"', 'num-traits = { version = "0.2", default-features = false }\n') if prop in ("C33", "C34") else ("", "")))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
# validate
def demo(cwd):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, capture_output=True, timeout=300)
a = demo("/repo"); b = demo(r)
t = subprocess.run("cargo test --workspace --all-features --offline 2>&1 | grep -E 'test result|FAILED|panicked|error:' ", shell=True, cwd=r, capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR=r + "/target"))
out = t.stdout.decode()
ok = a.returncode == 0 and b.returncode != 0 and "FAILED" not in out and "error:" not in out
print(i, "clean", a.returncode, a.stderr.decode()[-500:] if a.returncode else "", "patched", b.returncode, b.stderr.decode()[-200:].strip(), "tests", "ok" if "FAILED" not in out and "error:" not in out else out)
# original lines only?
names = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "HEAD", "--"] + [edits[0]]).decode()
shutil.rmtree(w)
sys.exit(0 if ok else 1)
