#!/usr/bin/env python3
"""mk.py ID: fills seeded/ID/kit from the harness; verify.py runs the whole confirmation"""
import os, shutil, sys
V = "/verif"
def kit(sid):
    d = f"{V}/seeded/{sid}"
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/checks")
    for f in ("build.py", "overlay.py"):
        shutil.copy(f"{V}/harness/{f}", k)
    for s in ("rt", "fakews"):
        shutil.copytree(f"{V}/harness/{s}", f"{k}/{s}")
    shutil.copy(d + "/demo.cc", k + "/checks/demo.cc")
    shutil.copy(f"{V}/harness/seedtools/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
for s in sys.argv[1:]:
    kit(s)
