#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms each planted bug in a scratch copy.
usage: mkseeds.py [--run] [id ...]   (--run: also run the property's quick check against it, in /repo, and undo)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, edits, needs, breaks, pkg, demo):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, pkg=pkg, demo=demo)
exec(open(os.path.join(V, "tools", "seeds.py")).read())
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: the planted change is visible
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d) || exit 2
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(pkg)s" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run 'TestPlantedDemo$' ./%(pkg)s
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
'''
env = dict(os.environ, PATH="/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="/opt/veriftools/go1.26.10",
           GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)
run = "--run" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(SEEDS)
base = tempfile.mkdtemp(prefix="seedcopy")
scratch = os.path.join(base, "repo")
sh(["cp", "-a", "/repo", scratch], "/")
bad = []
for id in ids:
    s = SEEDS[id]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", scratch)
    open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=s["pkg"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh(["bash", os.path.join(d, "demo.sh")], scratch)
    for f, old, new in s["edits"]:
        p = os.path.join(scratch, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "EDIT matches", t.count(old), "times:", f); bad.append(id); break
        open(p, "w").write(t.replace(old, new))
    else:
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", scratch).stdout)
        b = sh("go build ./... && go test -count=1 ./...", scratch)
        r1 = sh(["bash", os.path.join(d, "demo.sh")], scratch)
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0
        print(id, s["prop"], "OK" if ok else "BAD", "demo clean rc=%d planted rc=%d tests rc=%d" % (r0.returncode, r1.returncode, b.returncode), flush=True)
        if "build failed" in r1.stdout: print("  demo does not build"); ok = False
        if not ok:
            bad.append(id); print(r0.stdout[-1500:] if r0.returncode else "", b.stdout[-1500:] if b.returncode else "", b.stderr[-1500:] if b.returncode else "")
            continue
        if run:
            a = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], "/")
            try:
                c = sh(["bash", "check.sh", s["prop"], "quick"], V)
            finally:
                sh("git checkout -q -- .", "/repo")
            hit = c.returncode == 1 and "VIOLATION property=%s" % s["prop"] in c.stdout
            print("   check:", "CAUGHT" if hit else "MISSED rc=%d" % c.returncode, flush=True)
            for l in c.stdout.splitlines():
                if l.startswith("counterexample") or l.startswith("  inputs"): print("     ", l[:200])
            if not hit: print(c.stdout[-800:], c.stderr[-500:])
shutil.rmtree(base)
print("bad:", bad)
