#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.claims import CLAIMS  # noqa

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for i in ids:
    if i in CLAIMS:
        technique, note = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} --tier quick",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": technique,
            "level": "exploration",
            "level_note": " ".join(note.split()),
        })
    else:
        missing.append({"property": i, "reason": "not claimed: its check is not finished"})
manifest = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q run.py vlib props >/dev/null 2>&1; test -x /opt/venv/bin/python",
    "checks": checks,
    "not_applicable": missing,
    "notes": "All checks are property-based testing and fuzzing with the engine in vlib/core.py; no hooks in /repo are needed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(missing), "not")
