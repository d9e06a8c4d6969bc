#!/usr/bin/env python3
"""Asks other solvers the queries the checks ask Z3.

    tools/crosscheck.py [EVERY] [CHECK...]

Runs the named checks' quick tasks (default: all) with every EVERY-th query of each worker written out as SMT-LIB, asks z3-new (a newer Z3) and cvc5 the same
query and compares the answers. Not part of any registered check; DESIGN.md, section 7, has the results of the last run. Exits 1 on a contradiction."""
import collections, concurrent.futures, os, random, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check, tasks

SOLVERS = {"z3-new": ["z3-new", "-T:20"], "cvc5": ["cvc5", "--lang=smt2", "--tlimit=20000"]}


def ask(f):
    text = open(f).read()
    if "set-logic" not in text: text = "(set-logic QF_BV)\n" + text
    got = {}
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as g: g.write(text)
    for name, cmd in SOLVERS.items():
        out = subprocess.run(cmd + [g.name], capture_output=True, text=True).stdout.split()
        got[name] = out[0] if out and out[0] in ("sat", "unsat") else "unknown"
    os.unlink(g.name)
    return f.split(".")[-2], got


def main():
    every = int(sys.argv[1]) if len(sys.argv) > 1 else 500
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 39)]
    bc = os.environ.get("BC") or check.build_bitcode(check.tree_hash())
    bad = 0
    for p in props:
        with tempfile.TemporaryDirectory() as d:
            ts = tasks.tasks(p, "quick")
            random.Random(1).shuffle(ts)
            a = [x for y in ts[:60] for x in ("--task", y)]
            try: subprocess.run([os.path.join(HERE, "engine/target/release/symx"), bc, os.path.join(d, "out.json"), "--jobs", "8", "--log", d, str(every)] + a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            except subprocess.TimeoutExpired: pass
            fs = sorted(f for f in os.listdir(d) if f.endswith(".smt2"))
            random.Random(1).shuffle(fs)
            n = collections.Counter()
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for ours, got in ex.map(ask, [os.path.join(d, f) for f in fs[:400]]):
                    n["queries"] += 1; n[ours] += 1
                    for name, r in got.items():
                        if r == ours: n[name + " agrees"] += 1
                        elif "unknown" in (r, ours): n[name + " gives up"] += 1
                        else: n[name + " CONTRADICTS"] += 1; bad += 1
            print(p, dict(n), flush=True)
    sys.exit(1 if bad else 0)


main()
