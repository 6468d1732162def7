#!/usr/bin/env python3
"""Regenerates the generated lists of DESIGN.md (fixed defects, findings, planted bugs) between their markers."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(H + "/known_findings.json"))
fixed = "\n".join("* `%s` (%s) %s" % re.match(r"fixed: property=(\S+) (\S+) (.*)", f).group(2, 1, 3) for f in k["fixed"])
find = "\n".join("* (%s) %s" % (f["property"], f["what"]) for f in k["findings"])
bugs = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    bugs.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|")))
p = H + "/DESIGN.md"; t = open(p).read()
for name, body in (("FIXED", fixed), ("FINDINGS", find), ("BUGS", "\n".join(bugs))):
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + "\n" + m.group(2), t, flags=re.S)
open(p, "w").write(t)
