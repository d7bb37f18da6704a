#!/usr/bin/env python3
"""mkseed.py ID PROP PKG NEEDS WHAT < spec: writes seeded/ID. spec: '--- FILE' / '<<<<' old '====' new '>>>>' blocks, then '--- DEMO' and the body of a test file."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, pkg, needs, what = sys.argv[1:6]
spec = sys.stdin.read()
edits, demo = spec.split("--- DEMO\n", 1)
tmp = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
cur = None
lines = edits.split("\n"); k = 0
while k < len(lines):
    l = lines[k]
    if l.startswith("--- "): cur = l[4:].strip()
    elif l == "<<<<":
        a = []; k += 1
        while lines[k] != "====": a.append(lines[k]); k += 1
        b = []; k += 1
        while lines[k] != ">>>>": b.append(lines[k]); k += 1
        f = tmp + "/r/" + cur
        s = open(f).read(); old = "\n".join(a); new = "\n".join(b)
        if s.count(old) != 1: sys.exit("%s: %d matches for:\n%s" % (cur, s.count(old), old))
        open(f, "w").write(s.replace(old, new))
    k += 1
d = V + "/seeded/" + i
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=tmp + "/r", text=True))
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
open(d + "/demo_test.go.txt", "w").write(demo)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# in-package test through an overlay; run with cwd = the repository
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$t" > "$t/o.json"
exec_go() { timeout 200 go test -vet=off -count=1 -timeout 180s %s -overlay "$t/o.json" -run '^TestZZDemo$' ./%s; }
exec_go
""" % (pkg, "-race" if "race" in needs else "", pkg))
shutil.rmtree(tmp)
