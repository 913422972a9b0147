#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import spec
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --prebuild", "checks": [], "not_applicable": []}
for i in ids:
    if i in spec.PROPS:
        p = spec.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
