#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 run.py --prebuild",
     "hooks": {"guard": "K52_VERIF", "enable": "no hooks are used: the monitors observe the public API, objective/task callbacks, link-time wrapped lock calls and sanitizer reports", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "monitor still being built; not claimed yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
