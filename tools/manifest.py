#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
notes = json.load(open(f"{root}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i)
    if n is None:
        na.append({"property": i, "reason": "the check for it is not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks run the code of /repo's working tree under an exhaustive explorer; see DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
