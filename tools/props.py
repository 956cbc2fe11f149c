#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
TECH = "deductive verification: Verus contracts on functions extracted from /repo's source on every run"
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']}", "thorough_cmd": f"./check.py {p['id']}",
                 "technique": TECH, "level": "proof", "level_note": p["note"],
                 "theorems": p.get("theorems", [])} for p in PROPS if not p.get("na")],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
     "notes": "No hooks are needed: contracts live in /verif/contracts and are attached to functions extracted mechanically from /repo's working tree on every run. The search driver (/verif/driver) replays failed obligations against the real crate and is a bounded stand-in, never counted as proved."}
for c in m["checks"]:
    if not c["theorems"]:
        del c["theorems"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
