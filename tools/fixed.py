#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known-findings.txt from the fix: commits of /repo and the table subject-prefix -> property."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(l.rstrip("\n").split(" | ", 1) for l in open(os.path.join(HERE, "tools", "fixed.map")) if " | " in l)
p = os.path.join(HERE, "known-findings.txt")
keep = [l for l in open(p) if not l.startswith("fixed:")] if os.path.exists(p) else []
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    k = [m for m in MAP if s.startswith(m)]
    if not k:
        print("no property for: " + s)
        continue
    out.append("fixed: property=%s %s %s\n" % (MAP[k[0]], h, s))
open(p, "w").writelines(keep + out)
