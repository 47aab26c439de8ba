#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (documentation only; no check reads it)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = []
def P(id, title, statement, over, text, why, files, mech, claim=None, na=None, **k):
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na, **k))
exec(open(os.path.join(R, "tools", "table.py")).read())
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in T:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One engine (engine/driver extracts monomorphic MIR of every function reachable from the public API, engine/scan decides the properties on it). No hooks in /repo."}
for p in T:
    if p["claim"]:
        tech, level, note = p["claim"]
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
