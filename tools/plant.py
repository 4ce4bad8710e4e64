#!/usr/bin/env python3
"""Plants one change: python3 tools/plant.py SPEC.py [id...]

SPEC.py defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new[, count])], demo="rust main.rs")].
Each is applied in a scratch copy of /repo, confirmed (builds, tests pass, the demonstration passes without
and fails with it) and kept in seeded/<id>/."""
import json, os, re, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT", "/tmp/plant/repo")
DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the crate in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)"; trap 'find "$d" -depth -delete' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
upon = { path = "$repo"%FEATURES% }
serde = { version = "1", features = ["derive"] }
[workspace]
END
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUST_BACKTRACE=0
CARGO_TARGET_DIR="$d/target" cargo build --quiet --offline --manifest-path "$d/Cargo.toml" || exit 9
timeout 120 "$d/target/debug/demo"
'''
def sh(cmd, cwd=S, timeout=900):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=S + "/target") if "cargo test" in cmd else None
    try:
        return subprocess.run(cmd, env=env, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = "timeout"; stderr = ""
        return R
def reset():
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    if not os.path.isdir(S):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(f"cp -a /repo {S}", "/tmp")
    if sh("git rev-parse HEAD").stdout.strip() != head:
        sh("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
    sh("git checkout -q -- .")
base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
def original(diff):
    """Does the change touch a line of the original repository?"""
    f = None; n = 0; ok = False
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(f"git blame -s -L{n},{n} HEAD -- {f}").stdout
            if b[1:8] == base[:7] or b[:8] == base[:8] or b.startswith("^"): ok = True
            n += 1
        elif l.startswith(" "): n += 1
    return ok
spec = runpy.run_path(sys.argv[1])["bugs"]
want = sys.argv[2:]
for b in spec:
    if want and b["id"] not in want: continue
    d = f"{ROOT}/seeded/{b['id']}"
    if not want and os.path.exists(f"{d}/meta.json"): continue
    reset()
    tmp = f"/tmp/plant/{b['id']}"; os.makedirs(tmp, exist_ok=True)
    open(f"{tmp}/demo.rs", "w").write(b["demo"].strip() + "\n")
    open(f"{tmp}/demo.sh", "w").write(DEMO.replace("%FEATURES%", b.get("features", ""))); os.chmod(f"{tmp}/demo.sh", 0o755)
    r = sh(f"bash {tmp}/demo.sh")
    if r.returncode != 0:
        print(b["id"], "DEMO FAILS UNPATCHED", r.returncode, r.stdout[-800:], r.stderr[-1500:], flush=True); continue
    bad = False
    for e in b["edits"]:
        p = f"{S}/{e[0]}"; t = open(p).read(); c = e[3] if len(e) > 3 else 1
        if t.count(e[1]) != c: print(b["id"], "EDIT", e[0], t.count(e[1]), e[1][:60], flush=True); bad = True; break
        open(p, "w").write(t.replace(e[1], e[2]))
    if bad: continue
    diff = sh("git diff").stdout
    if not original(diff): print(b["id"], "NO ORIGINAL LINE", flush=True); continue
    r = sh("timeout -k 5 240 cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
    if r.returncode != 0:
        out = r.stdout + r.stderr
        print(b["id"], "TESTS FAIL", re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)[:6] or out[-900:], flush=True); continue
    r = sh(f"bash {tmp}/demo.sh")
    if r.returncode in (0, 9):
        print(b["id"], "DEMO DOES NOT FAIL", r.returncode, r.stderr[-800:], flush=True); continue
    os.makedirs(d, exist_ok=True)
    for n in ("demo.rs", "demo.sh"): sh(f"cp -p {tmp}/{n} {d}/")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(b["id"], "kept", r.returncode, (r.stderr.strip().splitlines() or [""])[-1][:150], flush=True)
reset()
