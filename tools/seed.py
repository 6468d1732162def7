#!/usr/bin/env python3
"""seed.py ID PROPERTY NEEDS BREAKS [DEMO_FLAGS]: turns the edit made in the scratch copy /tmp/seedrepo into
/verif/seeded/ID, after confirming that it builds, passes the stable tests and that the demo tells the two apart.
The demo is /verif/seeded/ID/demo.cpp (exit 0 = property holds).  Not used by any check."""
import json, os, subprocess, sys
S, R, V = "/tmp/seedrepo", "/repo", "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
if sys.argv[1] == "init":
    if not os.path.isdir(S): print(sh("git clone -q %s %s" % (R, S)).stdout)
    print(sh("git -C %s fetch -q origin && git -C %s checkout -q --detach && git -C %s reset -q --hard origin/HEAD; git -C %s rev-parse HEAD; git -C %s rev-parse HEAD" % (S, S, S, S, R)).stdout)
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("build.sh", "test.sh", "run_catch.py", "results.py"):
        t = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/", "/tmp/seedvp/")
        open("/tmp/seedvp/" + f, "w").write(t)
    for f in ("BASELINE.json", "BUILD.json"): sh("cp /opt/vp/%s /tmp/seedvp/" % f)
    sys.exit(0)
sid, prop, needs, breaks = sys.argv[1:5]
flags = sys.argv[5] if len(sys.argv) > 5 else ""
d = os.path.join(V, "seeded", sid)
diff = sh("git -C %s diff" % S).stdout
if not diff.strip(): sys.exit("no edit in " + S)
open(d + "/patch.diff", "w").write(diff)
open(d + "/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case (run in the repository root).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
g++ -std=c++17 -w -O1 %s -I. "$here/demo.cpp" -o "$tmp/demo" -lpthread && timeout 60 "$tmp/demo"
rc=$?
rm -rf "$tmp"
exit $rc
''' % flags)
os.chmod(d + "/demo.sh", 0o755)
ok = True
r = sh("git apply --check %s/patch.diff" % d, cwd=R)
print("applies to /repo:", r.returncode == 0, r.stdout[:300]); ok &= r.returncode == 0
a = sh("bash %s/demo.sh" % d, cwd=R); print("demo unchanged:", a.returncode, a.stdout[-300:]); ok &= a.returncode == 0
b = sh("bash %s/demo.sh" % d, cwd=S); print("demo patched:", b.returncode, b.stdout[-300:]); ok &= b.returncode != 0
t = sh("bash /tmp/seedvp/test.sh /tmp/seedvp/o.json")
o = json.load(open("/tmp/seedvp/o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
missing = [x for x in base if x not in o["passed"]]
print("tests: passed %d, stable not passing %d %s" % (len(o["passed"]), len(missing), missing[:4])); ok &= not missing
if "build failed" in t.stdout: print(t.stdout[-600:])
c = sh("CML_REPO=%s python3 check.py %s" % (S, prop), cwd=V); print("check %s: exit %d\n%s" % (prop, c.returncode, "\n".join(x[:220] for x in c.stdout.splitlines()[-4:])))
print("VALID" if ok else "NOT VALID", "CAUGHT" if c.returncode == 1 else "MISSED")
sh("git -C %s checkout -q -- ." % S)
