#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(V, "meta", "props", "*.json"))):
    d = json.load(open(f))
    props.append(d["property"])
    pid = d["property"]["id"]
    if "not_applicable" in d:
        na.append({"property": pid, "reason": d["not_applicable"]})
    else:
        c = d["check"]
        checks.append({"property": pid, "quick_cmd": "./check.sh " + pid,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["level_note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, conformance drivers in harness/, run by check.sh; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(props), "properties", len(checks), "checks")
