#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from targets import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
ids = [p["id"] for p in props]
na = json.load(open(f"{V}/lib/not_applicable.json")) if os.path.exists(f"{V}/lib/not_applicable.json") else {}
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    elif i not in na:
        na[i] = "no check built yet"
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items() if k in ids and k not in CHECKS],
     "hooks": {"guard": "VERIF_HOOKS", "enable": "the harness builds pass -DVERIF_HOOKS to every repository source they compile", "source_commits": []}}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
miss = [c for c in CHECKS if c not in ids]
print(len(checks), "checks", len(m["not_applicable"]), "not applicable; without property:", miss)
