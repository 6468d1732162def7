#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness directories and tools/levels.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
notes = json.load(open(os.path.join(H, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(os.path.join(H, "harness", i)):
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the harnesses drive the public API of the header-only library compiled from the working tree."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
