#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PARTS
from notes import NOTES, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in PARTS:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i, "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "machinery not built yet")})
m["hooks"] = {"guard": "--cfg celo_bls_verif", "enable": "RUSTFLAGS=\"--cfg celo_bls_verif\"", "source_commits": ["acd6f96"]}
m["notes"] = "setup_cmd builds every harness; a check rebuilds what it needs from /repo's working tree (content hash, not time stamps). The hooks only re-export private items to the circuit monitors."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
