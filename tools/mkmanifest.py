#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Every feasible path of the compiled crate (panics, wrapped arithmetic, allocations, values) for all values of the symbolic bytes within the shapes and sizes listed "
        "in the evidence file under bounds; nothing beyond them. Trusted: rustc's code generation to LLVM bitcode, the engine (a sample of its paths is compared with the native build on every run), Z3. "
        "Stand-ins: allocation never fails, HashMap's hash function is a fixed one, a panic ends its path.")
EXTRA = {
    "C01": " Termination is a bound on executed instructions per input byte; files beyond about a hundred bytes only with repetitive concrete parts.",
    "C02": " The bound asserted is 512 bytes of live heap per input byte plus 8192.",
    "C30": " The bound asserted is 50000 + 1500 instructions of unoptimised IR per input byte, hashing as one step per four bytes; replay counts machine instructions with callgrind.",
    "C35": " The bounds asserted are 512 bytes of live heap per character plus 8192, and 20000 + 600 instructions of unoptimised IR per character.",
    "C36": " The bound asserted is 4000 instructions of unoptimised IR per operation, hashing as one step per four bytes (a push that makes the tables grow: 400 more per item); sizes are those listed.",
    "C03": " Depths up to those listed; the bound asserted on call depth is independent of the nesting.",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": "symbolic execution of the crate's LLVM bitcode, paths and assertions decided by Z3 (bit-vectors), counterexamples replayed natively",
                   "level": "model_checking", "level_note": NOTE + EXTRA.get(p, "")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public API only. Commits in /repo are fix: commits, listed in known-findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
