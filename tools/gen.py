#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES
root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE if "prop" in n]:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']}",
                 "thorough_cmd": f"bash /verif/run.sh {p['id']}",
                 "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": n.get("prop", n)["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
