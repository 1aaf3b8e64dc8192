#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/parts.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from parts import PARTS, NOTES  # noqa
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PARTS:
        specs = sorted({x["spec"] for x in PARTS[i]} | {x["gen"]["spec"] for x in PARTS[i] if x.get("gen")})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 bin/check.py {i} quick",
            "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ model checked with TLC; " + NOTES[i][0] + " (" + ", ".join(specs) + ")",
            "level": "model_checking",
            "level_note": NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "mkdir -p work evidence && java -version && cargo --version",
    "checks": checks,
    "not_applicable": na,
    "notes": "bin/check.py builds harness/core against /repo, runs it and checks what it recorded with TLC. No hooks in /repo.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
