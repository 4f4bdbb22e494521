#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe" in kw: a["observe_at"] = [kw["observe"]]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": qtext},
              "why_tests_cant": why, "anchors": a,
              "_check": kw.get("check"), "_na": kw.get("na")})
R = "grayc/src/runtime/"; S = "grayc/src/stdlib/"; G = "grayc/src/"
exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())
ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    script = f"checks/{p['id'].lower()}.py"
    if p["_check"] and os.path.exists(os.path.join(ROOT, script)):
        tech, level, note = p["_check"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 {script}",
                       "thorough_cmd": f"python3 {script}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p["id"], "reason": p["_na"] or "No check built yet (work in progress)."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(na), "not applicable/unbuilt")
