#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": i, "reason": NA[i]} for i in ids if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
     "notes": "One Go program (analyzer/) decides every property from the SSA form of /repo's current source; nothing of /repo is executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
