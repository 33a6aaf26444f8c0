#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p.get("observe"): a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check --thorough " + p["id"],
           "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in props.P if p.get("technique")]
m = {"version": 1, "setup_cmd": "./setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.P if p.get("na")]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
