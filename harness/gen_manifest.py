#!/usr/bin/env python3
"""MANIFEST.json from the properties and the drivers present."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from manifest_notes import NOTES, NA
drv = build.drivers()
checks, na = [], []
for l in open(VERIF + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    if any(re.fullmatch(pid.lower() + r"[a-z_]*", d) for d in drv) and pid in NOTES:
        tech, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py harness/build.py", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the drivers link hgdb's own sources against an in-process WebSocket stand-in, a simulated VPI and a controlled thread run time (harness/)."}
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
