#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/props.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
spec = json.load(open(os.path.join(here, "harness/props.json")))
T = ("bounded symbolic execution of the Go SSA of /repo's current source; scalars and group elements as exact "
     "polynomials over the group order, path conditions and remaining assertions by z3; candidates replayed natively")
checks, na = [], []
for p in props:
    i = p["id"]
    s = spec.get(i)
    if not s or not s.get("quick"):
        na.append({"property": i, "reason": "no check has been built for this property yet"})
        continue
    assert s["bounds"] and s["note"], i
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": T + s.get("technique", ""), "level": "model_checking", "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not applicable")
