#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in properties_table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties_table import PROPS, NA, TECH
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "technique": p.get("technique", TECH),
            "level": "exploration",
            "level_note": p["level_note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "No hooks in /repo: the seams (clock, task scheduler, locks, transport, randomness) are put in while sim/layout.py copies the sources of /repo's working tree into /verif/.build.",
}
with open(f"{root}/MANIFEST.json", "w") as f:
    f.write(json.dumps(m, indent=1) + "\n")
