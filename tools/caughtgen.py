#!/usr/bin/env python3
# Writes tools/caught.json from logs of tools/mutrun.py (arguments) and seeded/.
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
g = lambda p, k: c.setdefault(p, {}).setdefault(k, [])
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+)\s+(C\d\d) ok (caught|rc=0)", l)
        if not m: continue
        k = "mutants" if m[3] == "caught" else "quiet" if m[1].startswith("r") else None
        if k and m[1] not in g(m[2], k): g(m[2], k).append(m[1])
for s in sorted(os.listdir(os.path.join(here, "seeded"))):
    g(json.load(open(os.path.join(here, "seeded", s, "meta.json")))["property"], "seeds").append(s)
for p in c:
    for k in c[p]: c[p][k].sort()
json.dump(c, open(os.path.join(here, "tools", "caught.json"), "w"), indent=1, sort_keys=True)
print({p: {k: len(v) for k, v in c[p].items()} for p in sorted(c)})
