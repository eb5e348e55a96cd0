#!/usr/bin/env python3
"""tools/fixed.py PROPERTY WHAT: record the last commit of /repo as the repair of a defect."""
import json, os, subprocess, sys
from pathlib import Path
sha = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "rev-parse", "--short", sys.argv[3] if len(sys.argv) > 3 else "HEAD"], capture_output=True, text=True, check=True).stdout.strip()
with open(Path(__file__).parent.parent / "KNOWN_FINDINGS.jsonl", "a") as f:
    f.write(json.dumps({"property": sys.argv[1], "status": "fixed", "commit": sha, "what": f"fixed: property={sys.argv[1]} {sha} {sys.argv[2]}"}) + "\n")
