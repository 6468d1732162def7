#!/usr/bin/env python3
"""seedcheck.py: for every planted bug, whether some hunk changes (or is inserted between) lines of the original repository."""
import os, re, subprocess, sys
R, V = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3a38467"
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, text=True, cwd=R).stdout
cache = {}
def added(p):
    if p not in cache:
        s = set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", sh("git diff -U0 --no-renames %s HEAD -- %s" % (BASE, p))):
            s.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
        cache[p] = s
    return cache[p]
for d in sorted(os.listdir(V + "/seeded")):
    text = open("%s/seeded/%s/patch.diff" % (V, d)).read(); ok = False
    for f in re.split(r"(?m)^(?=diff --git )", text)[1:]:
        p = re.search(r"(?m)^\+\+\+ b/(\S+)", f)[1]
        at = 0; lines = f.splitlines(); runs = []; cur = None
        for l in lines:
            m = re.match(r"@@ -(\d+)", l)
            if m: at = int(m[1]); cur = None; continue
            if not at: continue
            if l[:1] in "+-":
                if cur is None: cur = [at, 0]; runs.append(cur)
                if l[0] == "-": cur[1] += 1; at += 1
            elif l[:1] != "\\": cur = None; at += 1
        for a, n in runs:
            old = [x not in added(p) for x in (range(a, a + n) if n else (a - 1, a))]
            ok |= any(old) if n else all(old)
    if not ok: print("NOT ORIGINAL", d)
