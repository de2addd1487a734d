#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (the checks) and properties.jsonl."""
import json, props
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        s = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": s.get("technique", "TLA+ specification; TLC-generated scenarios replayed into the code; recorded traces validated by TLC"),
            "level": s.get("level", "model_checking"), "level_note": s.get("note", props.NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "check under construction")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
