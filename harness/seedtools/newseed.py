#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS  (demo.cc written separately); several edits: FILE/OLD/NEW repeated via @json"""
import json, os, subprocess, sys
def make(sid, pid, edits, needs, breaks, demo):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = os.environ.get("HGDB_REPO", "/repo") + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{sid}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", os.environ.get("HGDB_REPO", "/repo"), "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", os.environ.get("HGDB_REPO", "/repo"), "checkout", "-q", "--", "."])
    json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.cc", "w").write(demo)
