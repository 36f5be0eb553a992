#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks (mc/src/props/mod.rs)."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
mod = open(f"{root}/mc/src/props/mod.rs").read()
built = set(re.findall(r'"(C\d\d)" =>', mod))
notes = json.load(open(f"{root}/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": notes[i]["technique"],
            "level": "model_checking",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
hooks = json.load(open(f"{root}/tools/hooks.json"))
m = {"version": 1, "setup_cmd": "./check.sh build", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "Stateless model checking of the real code: mc/ explores bounded choice trees exhaustively against independent reference models. See DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
