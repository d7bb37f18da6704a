#!/usr/bin/env python3
"""seedcheck.py [id...]: confirm planted bugs in a scratch copy of /repo: the patch
applies, builds, keeps the stable tests, and its demo passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")
def sh(cmd, cwd, t=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=E, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 124; stdout = "timeout"; stderr = ""
        return R()
def passed(cwd):
    r = sh("go test -json -vet=off -count=1 ./...", cwd, 600)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"): ok.add((d["Package"], d["Test"]))
    return ok
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
tmp = tempfile.mkdtemp(prefix="seed")
try:
    wt = tmp + "/repo"
    shutil.copytree("/repo", wt, symlinks=True)
    base = passed(wt)
    bad = 0
    for i in ids:
        d = V + "/seeded/" + i
        dd = tmp + "/d"
        if os.path.exists(dd): shutil.rmtree(dd)
        shutil.copytree(d, dd)
        for x in list(os.listdir(dd)):
            if x.endswith((".diff", ".patch")) or x == "meta.json": os.remove(dd + "/" + x)
        msg = []
        r = sh("bash %s/demo.sh" % dd, wt)
        if r.returncode != 0: msg.append("demo fails unpatched: " + (r.stdout + r.stderr)[-600:])
        a = sh(["git", "apply", d + "/patch.diff"], wt)
        if a.returncode: msg.append("does not apply: " + a.stderr)
        else:
            b = sh("go build ./...", wt)
            if b.returncode: msg.append("does not build: " + b.stderr)
            else:
                lost = base - passed(wt)
                if lost: msg.append("loses tests: %s" % sorted(lost)[:4])
                r = sh("bash %s/demo.sh" % dd, wt)
                if r.returncode == 0: msg.append("demo passes patched")
        sh("git checkout -q -- . && git clean -fdq", wt)
        print(i, "ok" if not msg else "BAD " + "; ".join(msg))
        bad += bool(msg)
finally:
    shutil.rmtree(tmp)
sys.exit(bad > 0)
