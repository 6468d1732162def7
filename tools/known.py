#!/usr/bin/env python3
"""known.py fixed PROP COMMIT WHAT | known.py finding PROP REGEX WHAT"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, "known_findings.json")
d = json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}
k, p, c, w = sys.argv[1:5]
if k == "fixed": d["fixed"].append("fixed: property=%s %s %s" % (p, c, w))
else: d["findings"].append({"property": p, "match": c, "what": w})
json.dump(d, open(f, "w"), indent=1)
