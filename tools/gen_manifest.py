#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V + "/checks")
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in SPECS:
        s = SPECS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 checks/run.py %s quick" % p,
            "thorough_cmd": "python3 checks/run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": s["technique"],
            "level": "exploration",
            "level_note": s["note"],
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "its monitor is not built yet")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the monitors are injected through the library's own interfaces (E-step, M-step, "
              "corpus, listener, optimisation problem) or interposed at link time (pthread calls). Commits in /repo are fixes only."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
