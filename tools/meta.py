#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", "return values and written buffers of the public functions")}}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"],
                   "evidence_file": "evidence/%s.json" % p["id"]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
