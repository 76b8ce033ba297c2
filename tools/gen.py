#!/usr/bin/env python3
# Source of checks.json and MANIFEST.json (python3 tools/gen.py rewrites both).
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}
COMMON = ["the x/tools SSA form is what the Go compiler runs",
          "symbolic text is 7-bit ASCII unless the bounds say bytes",
          "goroutine scheduling is explored by C29 only: elsewhere the code runs in one goroutine"]
def chk(id, runs, note, outside, assume=()):
    C[id] = dict(runs=runs, note=note, outside=outside, assume=list(assume) + COMMON)
def run(h, quick=None, thorough=None, bounds="", **kw):
    d = dict(h=h, quick=quick or {}, thorough=thorough or {}, bounds=bounds)
    d.update(kw)
    return d

exec(open(os.path.join(here, "tools", "checks.py")).read())

NA = []

json.dump({k: dict(runs=v["runs"], assume=v["assume"], outside=v["outside"]) for k, v in sorted(C.items())},
          open(os.path.join(here, "checks.json"), "w"), indent=1)
m = dict(version=1, setup_cmd="bash check.sh setup",
         checks=[dict(property=k, quick_cmd=f"bash check.sh {k} quick", thorough_cmd=f"bash check.sh {k} thorough",
                      technique="symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3) for all inputs in bounds, counterexamples replayed natively",
                      level="model_checking",
                      level_note=v["note"] + " Outside the bounds: " + v["outside"]) for k, v in sorted(C.items())],
         not_applicable=NA,
         notes="One engine (engine/, Go) symbolically executes harness/h against /repo's current source; see DESIGN.md.")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for i in ids:
    if i not in C and i not in [n["property"] for n in NA]:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(C), "checks;", [n["property"] for n in m["not_applicable"]])
