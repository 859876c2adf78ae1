#!/usr/bin/env python3
"""writes MANIFEST.json from analysis/specs.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analysis")
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 analysis/check.py %s" % i, "thorough_cmd": "python3 analysis/check.py %s --thorough" % i,
            "technique": "static analysis: " + s.technique, "level": s.level, "level_note": s.note,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analyses read the unmodified crate through a compiler driver (driver/main.rs). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
