#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import deductive
checks = []
for p in [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]:
    i = p["id"]
    d = deductive.INFO[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, technique=d["technique"], level=d["level"], level_note=d["note"] + (" Assumes: " + "; ".join(d["assumes"]) + "." if d["assumes"] else "")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[], notes="See DESIGN.md. KNOWN_FINDINGS lists recorded and repaired defects.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
