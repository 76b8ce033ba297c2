#!/usr/bin/env python3
"""mutrun.py [-j N] [-f FILE] [id-prefix ...]: run the quick check of each mutant of tools/mutants.py
(or the listed properties of each refactoring of tools/refactors.py, which must stay quiet)
in a private mount namespace with scratch copies over /repo and /verif."""
import os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
J = 2
args = sys.argv[1:]
files = ["mutants.py"]
DRY = "-n" in args
if DRY: args.remove("-n")
if "-j" in args: i = args.index("-j"); J = int(args[i+1]); del args[i:i+2]
if "-f" in args: i = args.index("-f"); files = [args[i+1]]; del args[i:i+2]
M = []
def mut(id, prop, edits): M.append((id, [prop], edits, 1))
def ref(id, props, edits): M.append((id, props.split(), edits, 0))
for f in files: exec(open(os.path.join(V, "tools", f)).read())
if args: M = [m for m in M if any(m[0].startswith(a) for a in args)]
env = dict(os.environ, PATH="/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="/opt/veriftools/go1.26.10",
           GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True)
def one(m):
    id, props, edits, want = m
    base = tempfile.mkdtemp(prefix="mut")
    try:
        r = base + "/repo"
        sh("cp -a /repo %s" % r, "/")
        for f, old, new in edits:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1: return print(id, "EDIT matches", t.count(old), f, flush=True)
            open(p, "w").write(t.replace(old, new))
        b = sh("go build ./... && go vet -copylocks=false ./... >/dev/null; go test -count=1 ./...", r)
        if b.returncode: return print(id, "TESTS FAIL", b.stdout[-300:], b.stderr[-300:], flush=True)
        if DRY: return
        sh("mkdir %s/verif && cd /verif && git ls-files -z -co --exclude-standard | grep -zv ^seeded/ | xargs -0 cp --parents -t %s/verif" % (base, base), "/")
        for prop in props:
            t0 = time.time()
            c = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && bash check.sh %s quick'" % (base, base, prop), "/")
            hit = c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout
            ok = (hit if want else c.returncode == 0)
            print("%-18s %s %s %s %.0fs" % (id, prop, "ok" if ok else "****", "caught" if hit else "rc=%d" % c.returncode, time.time()-t0), flush=True)
            if not ok: print(c.stdout[-600 if not want else -300:], c.stderr[-400:], flush=True)
    finally:
        shutil.rmtree(base)
with ThreadPoolExecutor(J) as ex: list(ex.map(one, M))
