#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import CHECKS
NOTE = ("Exploration: verdicts hold for the executions observed (counts, distinct situations and samples in the evidence file); nothing is proved beyond them.")
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": "exploration", "level_note": c.get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not claimed yet: check under construction")})
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
