#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. See DESIGN.md; known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
