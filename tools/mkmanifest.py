#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (the properties claimed and how)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitoring: online comparison of observed executions (output, error, callback trace) with an executable reference semantics, on generated programs"
GEN = "runtime monitoring: the expected observation is built together with the generated input (no parser involved) and cross-checked against an executable reference semantics"
META = "runtime monitoring: metamorphic oracle over the recorded executions of related programs"
HIST = "runtime monitoring: replay of recorded operation histories against a sequential model"
CHECKS = {
    "C01": ("runtime monitoring: crash, abort, CPU-time and determinism monitors (debug assertions and overflow checks on) around compilation and error formatting, with per-case process isolation", "exploration"),
    "C02": ("runtime monitoring: crash, abort, CPU-time monitors (debug assertions and overflow checks on) around rendering and error formatting, with per-case process isolation", "exploration"),
    "C03": (GEN, "exploration"),
    "C04": (GEN, "exploration"),
    "C05": (DIFF + "; metamorphic renaming of delimiters", "exploration"),
    "C06": ("runtime monitoring: accept/reject verdicts compared with an independent recogniser of the documented grammar, on generated, mutated and token-soup sources", "exploration"),
    "C07": (GEN, "exploration"),
    "C08": (DIFF, "exploration"),
    "C09": (DIFF, "exploration"),
    "C10": (DIFF, "exploration"),
    "C11": (DIFF, "exploration"),
    "C12": (DIFF, "exploration"),
    "C13": (DIFF, "exploration"),
    "C14": (DIFF, "exploration"),
    "C15": (DIFF, "exploration"),
    "C16": ("runtime monitoring: recording functions of all 155 shapes, arguments compared with the values known by construction", "exploration"),
    "C17": ("runtime monitoring: recording functions over value kind x parameter type x position, judged by an independent conversion table", "exploration"),
    "C18": (DIFF, "exploration"),
    "C19": ("runtime monitoring: the printed location of every observed error compared with the span predicted by an executable reference semantics", "exploration"),
    "C20": ("runtime monitoring: kind, reason and source of every observed error compared with an executable reference semantics, with callback failures injected at chosen call indexes", "exploration"),
    "C21": ("runtime monitoring: fault-injecting writers, every failing write index enumerated per program, recorded write log checked offline", "fault_enumeration"),
    "C22": (GEN, "exploration"),
    "C23": (GEN, "exploration"),
    "C24": (META + "; recorded value-function calls checked against the paths mentioned", "exploration"),
    "C25": ("runtime monitoring: event log of all callbacks checked against the trace specification, with failures injected at call indexes", "exploration"),
    "C26": (HIST, "exploration"),
    "C27": ("runtime monitoring: ThreadSanitizer on the real code (standard library instrumented too) and per-thread comparison with single-threaded results under stress, jitter and injected failures and panics", "exploration"),
    "C28": (HIST, "exploration"),
    "C29": ("runtime monitoring: the same cases executed by eight feature builds, recorded observations compared", "exploration"),
    "C30": (META, "exploration"),
    "C31": (META, "exploration"),
    "C32": ("runtime monitoring: counting global allocator and write/callback interleaving recorded while iteration counts grow", "exploration"),
    "C33": ("runtime monitoring: thread CPU clock and counting allocator around compiling and rendering while one dimension of the input grows 64-fold, ratios compared", "exploration"),
}
NOTE = "Held on every execution observed; reach is bounded by the workload generators. Trusts the harness's own oracle (harness/src/model) and the Rust standard library."
NOTES = {
    "C01": "Held on every execution observed, except the listed known findings (stack exhaustion on a source nested 100000 deep). A hang is judged by CPU time.",
    "C02": "Held on every execution observed. A hang is judged by CPU time; callbacks that themselves diverge are outside.",
    "C27": "Schedules are those the stress and the jitter produced (counted in the evidence); ThreadSanitizer reports races on accesses that happened, whatever their order.",
    "C32": "Peaks are compared across growing iteration counts; the bound is relative, not a proof of O(1).",
    "C33": "A family is reported only when time or bytes grow 20 to 32 times for 8 times the input, in every one of several spaced measurements; smaller super-linear growth is below the resolution.",
}
NOT = {}
def main():
    ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
    checks = []
    for i in ids:
        if i in CHECKS:
            t, l = CHECKS[i]
            checks.append({
                "property": i,
                "quick_cmd": f"./check.sh {i} quick",
                "thorough_cmd": f"./check.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": t,
                "level": l,
                "level_note": NOTES.get(i, NOTE),
            })
    na = [{"property": i, "reason": NOT.get(i, "check not built yet")} for i in ids if i not in CHECKS]
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks are needed in /repo: everything is observed through the public API. ./check.sh one <ID> <case> replays a single case.",
    }
    open(f"{ROOT}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
main()
