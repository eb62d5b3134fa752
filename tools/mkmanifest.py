#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i not in PROPS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    p = PROPS[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 tools/check.py " + i,
        "thorough_cmd": "env VERIF_TIER=thorough python3 tools/check.py " + i,
        "technique": p.get("technique", "TLA+ specification, TLC trace validation of recorded runs of the real code"),
        "level": p.get("level", "model_checking"),
        "level_note": p.get("note", "Every generated case is executed by the real code and decided by TLC against the specification; the cases are bounded (grammar size, input length, step bound) and drawn from VERIF_SEED. Trusted: the harness's encoding of grammars and trees, TLC."),
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
