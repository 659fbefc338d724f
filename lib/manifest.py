#!/usr/bin/env python3
"""manifest.py -- write MANIFEST.json from the table of checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 lib/check.py " + p,
        "thorough_cmd": "python3 lib/check.py " + p,
        "technique": checks.TECHNIQUE,
        "level": "other",
        "level_note": "Decided by the solver for every value within these bounds: " + checks.META[p][0],
    } for p in props if p in checks.META],
    "not_applicable": [{"property": p, "reason": checks.NOT_APPLICABLE[p]} for p in props if p not in checks.META],
    "notes": "No hooks: the checks drive the public interface of /repo's sources as they are. known-findings.txt lists the defects repaired in /repo. DESIGN.md describes models, bounds and seeded changes.",
}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
