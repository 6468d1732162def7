#!/usr/bin/env python3
"""level.py ID TECHNIQUE NOTE: claims a property in levels.json and rewrites MANIFEST.json."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, "tools", "levels.json")
d = json.load(open(f))
d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(H, "tools", "gen_manifest.py")])
