#!/usr/bin/env python3
# Writes DESIGN.md from the text below, properties.jsonl, checks.json and tools/caught.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = json.load(open(os.path.join(here, "checks.json")))
try: caught = json.load(open(os.path.join(here, "tools", "caught.json")))
except FileNotFoundError: caught = {}
O = {}
exec(open(os.path.join(here, "tools", "oracles.py")).read())
out = [open(os.path.join(here, "tools", "design_head.md")).read()]
for p in props:
    i = p["id"]; c = checks[i]
    out.append("### %s %s\n\n%s\n" % (i, p["title"], O[i].strip()))
    for r in c["runs"]:
        ps = lambda d: ", ".join("%s=%s" % kv for kv in d.items()) or "none"
        q = dict(r["quick"]); t = dict(q); t.update(r["thorough"])
        out.append("- `%s`: %s. Parameters: quick %s%s.%s" % (r["h"], r["bounds"], ps(q), "" if t == q else "; thorough " + ps(t), " All map iteration orders." if r.get("maporder") else ""))
    a = [x for x in c["assume"] if x not in checks["C04"]["assume"]]
    if a: out.append("- Assumes: " + "; ".join(a) + ".")
    out.append("- Outside the bounds: " + c["outside"])
    s = caught.get(i, {})
    if s.get("seeds"): out.append("- Planted bugs caught: " + ", ".join(s["seeds"]) + ".")
    if s.get("mutants"): out.append("- Other breakages caught (tools/mutants.py): " + ", ".join(s["mutants"]) + ".")
    if s.get("missed"): out.append("- Missed: " + ", ".join(s["missed"]) + ".")
    if s.get("quiet"): out.append("- Quiet on the refactorings (tools/refactors.py): " + ", ".join(s["quiet"]) + ".")
    out.append("")
out.append(open(os.path.join(here, "tools", "design_tail.md")).read())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
