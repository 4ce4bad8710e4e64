#!/usr/bin/env python3
"""python3 tools/catch.py [--all] [seeded id...]: applies each planted bug to /repo, runs its property's check (with
--all every check) in quick mode, and undoes it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, cwd=ROOT, capture_output=True, text=True)
args = sys.argv[1:]; every = "--all" in args; args = [a for a in args if a != "--all"]
ids = args or sorted(os.listdir(f"{ROOT}/seeded"))
assert not sh("git -C /repo status --porcelain").stdout
checks = [c["property"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]]
for i in ids:
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    if sh(f"git -C /repo apply {ROOT}/seeded/{i}/patch.diff").returncode: print(i, "DOES NOT APPLY", flush=True); continue
    out = []
    for p in (checks if every else [m["property"]]):
        t = time.time(); r = sh(f"./check.sh {p} quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        w = (v or r.stderr.strip().splitlines() or [""])[-1]
        out.append(p + (":CAUGHT" if r.returncode == 1 and v and f"property={p} " in v[0] else f":{r.returncode}"))
        if not every: out[-1] += f" {time.time()-t:.0f}s {w[:160]}"
    sh("git -C /repo checkout -- .")
    if every: out = ["caught by " + ",".join(o.split(":")[0] for o in out if o.endswith("CAUGHT"))] + [o for o in out if not o.endswith(("CAUGHT", ":0"))]
    print(i, *out, flush=True)
