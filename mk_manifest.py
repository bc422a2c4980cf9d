#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
from specs import CHECKS

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = CHECKS.get(p["id"])
    if not s:
        na.append({"property": p["id"], "reason": "no check yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": s["technique"],
        "level": s.get("level", "exploration"),
        "level_note": s["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the library is a header only template library whose public API exposes everything the "
             "monitors need; /repo carries fix commits only. Every check rebuilds its workload from "
             "/repo/include (and /repo/ssp.hpp) of the current tree.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed")
