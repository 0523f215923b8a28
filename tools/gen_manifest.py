#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
            "level_note": c.get("note", "Holds for every explored execution: " + c["bounds"] + ". Trusted: compiler, C library, the reference model in harness/.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built for it yet"})
m["notes"] = "Every check compiles /repo's working tree itself (no hooks in /repo). Findings and repairs: KNOWN_FINDINGS.txt. Design: DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
