#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from sa/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(list(props.PROPS.values()) + list(props.NOT_APPLICABLE.values()), key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Every check re-extracts MIR facts from /repo's working tree and analyses them; nothing of the program is executed."}
for p in sorted(props.PROPS.values(), key=lambda p: p["id"]):
    c = "python3-vt check.py %s" % p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": c, "thorough_cmd": c + " --thorough", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
for p in sorted(props.NOT_APPLICABLE.values(), key=lambda p: p["id"]):
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
