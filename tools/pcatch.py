#!/usr/bin/env python3
"""python3 tools/pcatch.py WORKER [seed=N] seeded-id...: like catch.py, on a copy of /repo and of the harness under
/tmp/pc/WORKER, so that several can run side by side and none touches /repo. (Development aid; not a registered check.)"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = sys.argv[1]; ids = sys.argv[2:]; seed = "1"
if ids and ids[0].startswith("seed="): seed = ids.pop(0)[5:]
D = f"/tmp/pc/{W}"; R = D + "/repo"; V = D + "/verif"
def sh(c, cwd="/tmp"): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", env=dict(os.environ, VERIF_SEED=seed))
os.makedirs(V, exist_ok=True)
sh(f"[ -d {R} ] || git clone -q /repo {R}; git -C {R} fetch -q /repo HEAD && git -C {R} checkout -qf FETCH_HEAD; cp -n /repo/Cargo.lock {R}/")
sh(f"cd {ROOT} && cp -au harness check.sh setup.sh MANIFEST.json known_findings.txt properties.jsonl {V}/; mkdir -p {V}/evidence; sed -i 's|\"/repo\"|\"{R}\"|' {V}/harness/Cargo.toml; sed -i 's|VERIF_REPO=/repo |VERIF_REPO={R} |' {V}/check.sh")
for i in ids:
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    if sh(f"git -C {R} apply {ROOT}/seeded/{i}/patch.diff").returncode: print(i, "DOES NOT APPLY", flush=True); continue
    t = time.time(); p = m["property"]; r = sh(f"./check.sh {p} quick", V)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    w = (v or r.stderr.strip().splitlines() or [""])[-1]
    print(i, p + (":CAUGHT" if r.returncode == 1 and v and f"property={p} " in v[0] else f":{r.returncode}"), f"{time.time()-t:.0f}s", w[:200], flush=True)
    sh(f"git -C {R} checkout -qf -- .")
