#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in, MANIFEST.json, known_findings.json and seeded/*/meta.json (run by hand)."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/DESIGN.in").read()
m = json.load(open(R + "/MANIFEST.json")); titles = {p["id"]: p["title"] for p in map(json.loads, open(R + "/properties.jsonl"))}
na = "## Not claimed\n\nThe technique applies to all of them; they have no check.\n\n" + "\n".join("* **%s %s.** %s" % (x["property"], titles[x["property"]], x["reason"]) for x in m["not_applicable"])
K = []; exec(open(R + "/tools/known_table.py").read(), {"KNOWN": K})
known = "\n".join("* %s: %s (%d keys)" % (p, w, len(k)) for p, w, k in K)
seeds = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    seeds.append("| %s: %s | %s | checks/%s.py |" % (n, d["what_it_breaks"].strip().replace("|", "/"), d["property"], d["property"].lower()))
nfix = sum(1 for l in open(R + "/tools/fixed.txt") if l.strip())
for k, v in (("%(NA)s", na), ("%(NFIX)d", str(nfix)), ("%(KNOWN)s", known), ("%(SEEDS)s", "\n".join(seeds)), ("%(COUNTS)s", "")): t = t.replace(k, v)
open(R + "/DESIGN.md", "w").write(t.rstrip() + "\n")
