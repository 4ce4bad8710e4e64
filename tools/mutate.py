#!/usr/bin/env python3
"""Development aid: python3 tools/mutate.py WORKER WORKERS OUT [file...]

Makes small textual mutants of the sources of a copy of /repo, keeps those that build and pass the existing tests, and
runs reduced versions of the checks of a copy of the harness on them. Prints which check sees which mutant. Mutants that
no check sees are equivalent, or gaps."""
import os, re, subprocess, sys, random
W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = f"/tmp/mut/w{W}"; R = D + "/repo"; V = D + "/verif"
CASES = os.environ.get("MUT_CASES", "12000")
ORDER = "11 08 12 06 19 25 03 13 18 30 10 15 04 05 07 09 14 20 21 24 17 16 22 23 28 31 26 02 32 01".split()
def sh(cmd, cwd=D, timeout=600, env=None):
    try:
        return subprocess.run("exec timeout -k 5 %d bash -c %s" % (timeout, __import__("shlex").quote(cmd)), shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        class X: returncode = 124; stdout = ""; stderr = ""
        return X
if not os.path.isdir(R):
    os.makedirs(V)
    sh(f"cp -a /repo {R}; mkdir {V}/evidence; cp -a {ROOT}/harness {V}/ 2>/dev/null", "/tmp")
sh(f"git -C {R} checkout -q -- . ; cp -a {ROOT}/harness/src {V}/harness/; cp {ROOT}/known_findings.txt {V}/; sed -i 's|\"/repo\"|\"{R}\"|' {V}/harness/Cargo.toml")
TENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=R + "/target", CARGO_BUILD_JOBS="3")
HENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=V + "/target", RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="1", CARGO_PROFILE_RELEASE_INCREMENTAL="true", CARGO_BUILD_JOBS="4")
RENV = dict(os.environ, VERIF_ROOT=V, VERIF_REPO=R, VERIF_SEED="1", VERIF_CASES=CASES, RUST_BACKTRACE="0")
OPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
  (" + ", " - "), (" - ", " + "), ("+= ", "-= "), ("true", "false"), ("false", "true"), ("is_none()", "is_some()"), ("is_some()", "is_none()"),
  ("is_ok()", "is_err()"), ("is_err()", "is_ok()"), ("!self", "self"), ("last_mut", "first_mut"), (".last()", ".first()"), (".first()", ".last()"),
  ("trim_end", "trim_start"), ("trim_start", "trim_end"), (".rev()", ""), ("checked_", "wrapping_"), ("saturating_", "wrapping_"), ("continue", "break"),
  ("break", "continue"), ("len()", "len() + 1"), ("push_str", "insert_str(0, "), ("pop_", "last_"), ("take()", "clone()"), ("Owned", "Borrowed"), ("Borrowed", "Owned"),
  ("unwrap_or(", "and("), ("chars()", "bytes()"), (".get(", ".get_mut("), ("Direct", "Optional"), ("Optional", "Direct"), ("char_indices", "bytes().enumerate"),
  ("i64", "i32"), ("usize", "u8"), ("f64", "f32"), ("u64", "i64"), ("Pos", "Neg"), ("Neg", "Pos"), ("template_name", "None"), ("expr.span()", "span"), ("name.span", "span"), (".span()", ".span"),
  ("insert(", "entry("), ("rfind(", "find("), ("find(", "rfind("), ("contains(", "starts_with("), ("starts_with(", "contains("), ("rest()", "path"), ("is_ascii_digit", "is_ascii_alphanumeric"),
  ("is_alphanumeric", "is_alphabetic"), ("or_else", "and_then"), ("&&", "||"), ("span.m", "span.n"), ("span.n", "span.m"), ("index", "first"), ("key", "value"), ("value", "key"), ("i..j", "i..j + 1"), ("i..j", "i..i"), ("m..n", "m..m"), ("begin", "end"), (" % ", " / "), (" * ", " + ")]
def lines(path):
    t = open(path).read().split("\n")
    for i, l in enumerate(t):
        if re.match(r"\s*(#\[cfg\(test\)\]|mod tests)", l): return
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "///", "assert", "debug_assert", "}", "where", "impl", "type ")): continue
        yield i, l
def mutants(path):
    seen = set()
    def out(i, new, what):
        if new not in seen and new != src[i]:
            seen.add((i, new)); return [(i, new, what)]
        return []
    src = open(path).read().split("\n"); res = []
    for i, l in lines(path):
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code):
                x, y = m.span()
                if a.isidentifier() and (re.match(r"\w", code[y:y+1] or " ") or re.search(r"\w$", code[:x])): continue
                res += out(i, l[:x] + b + l[y:], f"{a.strip()} -> {b.strip()}")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            x, y = m.span()
            res += out(i, l[:x] + str(int(m[1]) + 1) + l[y:], f"{m[1]} -> +1")
            if m[1] != "0": res += out(i, l[:x] + "0" + l[y:], f"{m[1]} -> 0")
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code):
            if m[1]: res += out(i, l[:m.start()] + '""' + l[m.end():], "string -> empty")
        for m in re.finditer(r"\bif (?!let)(.+) \{$", code):
            res += out(i, l[:m.start(1)] + "true || " + l[m.start(1):], "if true"); res += out(i, l[:m.start(1)] + "false && " + l[m.start(1):], "if false")
        m = re.match(r"(\s*)(.+)( if )(.+)( => .*)$", code)
        if m: res += out(i, m[1] + m[2] + " if false && " + m[4] + m[5], "guard false")
        if re.match(r"\s*[a-z_*][\w.*]*(\(.*\)|\s[+-]?= .*)\??;$", code) and not code.strip().startswith(("let", "return")):
            res += out(i, re.match(r"\s*", l)[0] + ";", "delete statement")
        if code.rstrip().endswith("?;") and not code.strip().startswith("let"):
            res += out(i, re.match(r"\s*", l)[0] + "let _ = " + code.strip()[:-2] + ";", "ignore error")
        if re.match(r"\s*\S.* => .*,$", code) and "{" not in code.split("=>")[1]:
            res += out(i, "", "delete arm")
        if re.match(r"\s*\(Value|\s*Value", code) and "=>" in code:
            res += out(i, "", "delete arm")
    return res
files = sys.argv[4:] or sorted(f"src/{os.path.relpath(os.path.join(d, f), R + '/src')}" for d, _, fs in os.walk(R + "/src") for f in fs if f.endswith(".rs") and "test" not in f)
todo = [(f, *m) for f in files for m in mutants(f"{R}/{f}")]
random.Random(1).shuffle(todo)
done = set()
if os.path.exists(OUT): done = {l.split("\t")[0] for l in open(OUT)}
log = open(OUT, "a")
for k, (f, i, new, what) in enumerate(todo):
    key = f"{f}:{i+1}:{what}:{abs(hash(new)) if 0 else new.strip()[:60]}"
    if k % N != W or key in done: continue
    sh(f"git -C {R} checkout -q -- .")
    src = open(f"{R}/{f}").read().split("\n"); old = src[i]; src[i] = new
    open(f"{R}/{f}", "w").write("\n".join(src))
    r = sh("cargo test --workspace --offline --no-run", R, 200, TENV)
    if r.returncode: log.write(f"{key}\tBUILD\n"); log.flush(); continue
    r = sh("cargo test --workspace --offline -- --test-threads 8", R, 60, TENV)
    if r.returncode: log.write(f"{key}\tTESTS\n"); log.flush(); continue
    r = sh(f"cargo build --release --offline --locked --manifest-path {V}/harness/Cargo.toml --bin harness --features shapes", V, 600, HENV)
    if r.returncode: log.write(f"{key}\tHARNESS-BUILD\t{r.stderr[-200:]!r}\n"); log.flush(); continue
    hit = ""
    for c in ORDER:
        r = sh(f"{V}/target/release/harness check C{c} quick", V, 200, RENV)
        if "VIOLATION property" in r.stdout: hit = "C" + c; break
        if "KNOWN-FINDING" not in r.stdout and r.returncode not in (0, 2): hit = f"C{c}?{r.returncode}"
    log.write(f"{key}\t{'SEEN ' + hit if hit else 'SURVIVED'}\t{old.strip()} => {new.strip()}\n"); log.flush()
sh(f"git -C {R} checkout -q -- .")
