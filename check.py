#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay PATH]: build the property's drivers from
/repo's working tree, explore, write the evidence file. Exit 0: held; 1: violated."""
import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as B  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def drivers_of(pid):
    """all drivers named cNN*.cc"""
    return [d for d in B.drivers() if re.fullmatch(pid.lower() + r"[a-z_]*", d)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.chdir(VERIF)
    names = drivers_of(pid)
    try:
        exes = B.build(names)
    except RuntimeError as e:
        # the tree does not build with this check's harness: no verdict
        print(str(e)[-6000:])
        print("check error: build failed")
        return 2
    build_s = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1:use_sigaltstack=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    for k in list(env):
        if k.startswith("DEBUG_"):
            del env[k]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        return subprocess.run([exes[r["driver"]], "--tier", r["tier"], "--known", KNOWN, "--replay",
                               r["choices"]], env=env).returncode
    results, rc = [], 0
    for n in names:
        out = os.path.join(B.BUILD, n + ".result.json")
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run([exes[n], "--tier", a.tier, "--out", out, "--known", KNOWN],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
            print("check error: driver %s ended with %d and no result" % (n, p.returncode))
            return 2
        r["driver"] = n
        results.append(r)
        for k in r.get("known", []):
            print("KNOWN-FINDING: property=%s %s (%s; %d executions)" %
                  (pid, k["text"], k["signature"], k["count"]))
        if "violation" in r:
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            key = hashlib.sha1((n + r["replay"]).encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (pid, key))
            with open(path, "w") as f:
                json.dump({"property": pid, "driver": n, "tier": a.tier, "choices": r["replay"],
                           "violation": r["violation"]}, f, indent=1)
            print(r["violation"][:3000])
            print("replay with: ./check.py %s --replay %s" % (pid, path))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
            break
    tot = lambda k: sum(r.get(k, 0) for r in results)  # noqa: E731
    samples, counters = [], {}
    for r in results:
        samples += r.get("samples", [])[:6]
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
    exhaustive = all(r.get("exhaustive") for r in results)
    cov = {
        "executions": tot("executions"),
        "states": tot("states"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("traces_validated_against_impl"),
        "evaluations": tot("evaluations"),
        "distinct_nontrivial": tot("distinct_nontrivial"),
        "exhaustive_within_bounds": exhaustive,
        "bounds": [r.get("bounds", "") for r in results],
        "counters": counters,
        "samples": samples[:12],
        "drivers": [{k: r.get(k) for k in ("driver", "executions", "states", "transitions",
                                            "top_cases", "top_cases_completed", "exhaustive",
                                            "wall_s")} for r in results],
    }
    lv = "model_checking"
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": lv, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "build_s": round(build_s, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s executions=%d states=%d transitions=%d validated=%d evaluations=%d nontrivial=%d exhaustive=%s %.1fs (build %.1fs)" % (
        pid, "held" if rc == 0 else "VIOLATED", cov["executions"], cov["states"],
        cov["transitions"], cov["traces_validated_against_impl"], cov["evaluations"],
        cov["distinct_nontrivial"], exhaustive, time.time() - t0, build_s))
    return rc


if __name__ == "__main__":
    sys.exit(main())
