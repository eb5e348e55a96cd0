#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks present (python3 tools/manifest.py)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "tools" / "level_notes.json").read_text())
NA = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i}.py").exists() and i not in NA and i in NOTES:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./run.sh {i} --tier quick",
                "thorough_cmd": f"./run.sh {i} --tier thorough",
                "technique": NOTES[i]["technique"],
                "level": "model_checking",
                "level_note": NOTES[i]["note"],
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet (work in progress); not claimed")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Bounded exhaustive exploration of the real code (no sampling) against independent numpy reference semantics; "
    "no hooks in /repo are needed. Replay a violation with ./run.sh <ID> --replay <file>.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print("claimed:", [c["property"] for c in checks])
