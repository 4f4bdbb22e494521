#!/usr/bin/env python3
"""Writes /verif/known_findings.json from the tables below (never at check time)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
# repaired defects: (properties, subject line of the commit, what failed)
FIXED = [l.rstrip("\n").split(" | ") for l in open(V + "/tools/fixed.txt") if l.strip() and not l.startswith("#")]
log = {s: h for h, s in (l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines())}
for props, subject, what in FIXED:
    h = [k for s, k in log.items() if s.startswith(subject)]
    assert len(h) == 1, (subject, h)
    for p in props.split(","):
        out.append({"property": p, "status": "fixed", "commit": h[0], "what": "fixed: property=%s %s %s" % (p, h[0], what)})
exec(open(V + "/tools/known_table.py").read())
for p, what, keys in KNOWN:
    out.append({"property": p, "status": "known", "keys": keys, "what": what})
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "entries")
