#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decides one property on /repo's current tree.

Exit 0: held on everything explored; an INCOMPLETE line (and "exhaustive": false in the evidence) says so when a part of the tasks could not be explored.
Exit 1: violated (VIOLATION line). Exit 2: no answer, because less than half of the tasks could be explored, or an expected witness was not reached."""
import fcntl, hashlib, json, os, random, shutil, subprocess, sys, threading, time

import tasks as T

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JBCRS_REPO", "/repo")
TC = "stable-x86_64-unknown-linux-gnu"
TARGET = os.path.join(HERE, "target")
EVID = os.path.join(HERE, "evidence")
WORK = os.path.join(TARGET, "work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true")
LIMIT = {"quick": 600, "thorough": 5400}
LEVEL = "model_checking"


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(HERE, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in (".git", "target"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p): continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as x: h.update(hashlib.sha256(x.read()).digest())
    h.update(open(os.path.join(HERE, "build_bc.sh"), "rb").read())
    return h.hexdigest()[:24]


def run(cmd, cwd=None, what="", env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline"], os.path.join(HERE, "engine"), "building the engine")
    return os.path.join(HERE, "engine/target/release/symx")


def build_bitcode(key):
    out = os.path.join(WORK, "h-%s.bc" % key)
    if not os.path.exists(out):
        tmp = out + ".tmp"
        run(["bash", os.path.join(HERE, "build_bc.sh"), tmp], what="compiling /repo and the harness to bitcode")
        os.rename(tmp, out)
    return out


def build_native(key, profile):
    """the same harness as a native program, against the same /repo tree"""
    out = os.path.join(WORK, "%s-%s" % (profile, key))
    if not os.path.exists(out):
        tgt = os.path.join(TARGET, "native-" + profile)
        d = os.path.join(tgt, "debug" if profile == "dev" else profile)
        for sub in (os.path.join(d, "deps"), os.path.join(d, ".fingerprint")):
            if os.path.isdir(sub):
                for f in os.listdir(sub):
                    if "jbcrs-" in f or f.startswith("harness-"):
                        p = os.path.join(sub, f)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        run(["cargo", "build", "--offline", "--features", "native", "--profile", profile, "--target-dir", tgt], os.path.join(HERE, "harness"), "building the native harness")
        shutil.copy2(os.path.join(d, "harness"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out


def native(exe, entry, case, hexinput, timeout=30):
    """-> (reproduced?, how it ended, reached labels)"""
    try:
        r = subprocess.run([exe, entry, str(case), "-"], input=hexinput, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return True, "does not end within %d s" % timeout, []
    reach = [l[6:] for l in r.stdout.splitlines() if l.startswith("REACH ")]
    last = [l for l in r.stdout.splitlines() if "panicked" in l or l.startswith("REPLAY")]
    how = "; ".join(last[-2:]) or "ended with status %d" % r.returncode
    if r.returncode == 0: return False, "completed", reach
    if r.returncode == 43: return False, "assumption not met", reach
    if r.returncode == 44: raise NoAnswer("replay: no entry " + entry)
    if r.returncode == 42: return True, how, reach
    return True, how + " (status %d)" % r.returncode, reach


def instructions(exe, entry, case, hexinput, which):
    r = subprocess.run(["valgrind", "--tool=callgrind", "--collect-atstart=no", "--callgrind-out-file=/dev/null", exe, entry, str(case), "-"], input=hexinput, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace", env=dict(os.environ, MEASURE=str(which)))
    n = [int(l.split()[-1]) for l in r.stdout.splitlines() if "Collected" in l]
    return n[0] if n else 0


def overworked(exe, v):
    """more instructions natively than the harness allows? -> (yes/no, how)"""
    r = subprocess.run([exe, v["entry"], str(v["case"]), "-"], input=v["input"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, text=True, errors="replace")
    limit = [int(l[6:]) for l in r.stdout.splitlines() if l.startswith("LIMIT ")]
    if not limit: return False, "completed"
    for k, allowed in enumerate(limit, 1):
        try: n = instructions(exe, v["entry"], v["case"], v["input"], k)
        except subprocess.TimeoutExpired: return True, "more than %d instructions" % allowed
        if n > allowed: break
    return n > allowed, "%d instructions, %d allowed" % (n, allowed)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    lock = open(os.path.join(TARGET, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = tree_hash()
    for f in os.listdir(WORK):  # keep only what belongs to the current tree
        if key not in f and not f.startswith("run"):
            os.remove(os.path.join(WORK, f))
    got = {}

    def job(name, f):
        try: got[name] = f()
        except Exception as e: got[name] = e
    th = [threading.Thread(target=job, args=a) for a in (("engine", build_engine), ("bc", lambda: build_bitcode(key)), ("dev", lambda: build_native(key, "dev")))]
    for x in th: x.start()
    for x in th: x.join()
    fcntl.flock(lock, fcntl.LOCK_UN)
    for v in got.values():
        if isinstance(v, Exception): raise v
    engine, bc, dev = got["engine"], got["bc"], got["dev"]
    build_s = time.time() - t0

    tl = T.tasks(prop, tier)
    out = os.path.join(WORK, "run-%s-%s-%d.json" % (prop, tier, os.getpid()))
    jobs = os.cpu_count() or 4
    cmd = [engine, bc, out, "--jobs", str(jobs), "--time", str(LIMIT[tier]), "--after", "20"]
    for x in tl: cmd += ["--task", x]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise NoAnswer("symbolic execution ended with status %d: %s" % (r.returncode, r.stdout[-2000:]))
    o = json.load(open(out))
    os.remove(out)

    known = {}
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == prop: known[(e["entry"], e["case"], e["message"])] = e
    fresh, listed, unconfirmed = [], [], []
    t_replay = time.time()
    done = set()
    for v in sorted(o["violations"], key=lambda v: len(v["input"])):
        k = (v["entry"], v["kind"], v["msg"])
        if k in done: continue
        if time.time() - t_replay > (30 if fresh else 120 if unconfirmed else 1e9): break
        ok, how = False, ""
        for profile in ("dev", "user"):
            ok, how, _ = native(dev if profile == "dev" else build_native(key, "user"), v["entry"], v["case"], v["input"])
            if not ok and how == "completed" and v["kind"] == "steps": ok, how = overworked(dev if profile == "dev" else build_native(key, "user"), v)
            if ok: break
        if not ok: unconfirmed.append((v, how)); continue
        if (v["entry"], v["case"], v["msg"]) in known: listed.append(v); continue
        done.add(k)
        v["profile"], v["native"] = profile, how
        fresh.append(v)
        if len(fresh) >= 5: break

    # the encoding against the real code: completed paths must end natively as they did symbolically
    rnd = random.Random(seed)
    smp = sorted(o["samples"], key=lambda s: (s["entry"], s["case"], s["input"]))
    groups = {}
    for s in smp: groups.setdefault(s["entry"], []).append(s)
    chosen = []
    for e in sorted(groups): chosen += rnd.sample(groups[e], min(len(groups[e]), 40 if tier == "quick" else 150))
    agree, differ = 0, []
    if not fresh:
        for s in chosen:
            bad, how, reach = native(dev, s["entry"], s["case"], s["input"])
            if not bad and how == "completed" and "|".join(reach) == s["reach"]: agree += 1
            else: differ.append((s, how, reach))

    missing = [w for w in T.REACH[prop] if not o["reach"].get(w)]
    problems = []
    if unconfirmed: problems.append("%d counterexamples do not reproduce natively, e.g. %s:%s %s %s input %s (%s)" % (len(unconfirmed), unconfirmed[0][0]["entry"], unconfirmed[0][0]["case"], unconfirmed[0][0]["kind"], unconfirmed[0][0]["msg"], unconfirmed[0][0]["input"][:200], unconfirmed[0][1]))
    if differ: problems.append("%d paths end differently natively, e.g. %s:%s input %s: %s %s, symbolically %s" % (len(differ), differ[0][0]["entry"], differ[0][0]["case"], differ[0][0]["input"][:200], differ[0][1], differ[0][2], differ[0][0]["reach"]))
    if o["errors"]: problems.append("unsupported or unfinished: %s" % json.dumps(o["errors"])[:1500])
    if missing: problems.append("witnesses not reached: %s" % missing)
    unfinished = set(o["unfinished"]) | {"%s:%s" % (x["entry"], x["case"]) for x, _ in unconfirmed} | {"%s:%s" % (x["entry"], x["case"]) for x, _, _ in differ}
    unattributed = o["not_started"] > 0 or any(k.startswith("worker process") for k in o["errors"])
    ours = [f for f in o["functions"] if not f["name"].startswith(("harness", "h_"))]
    cases = {}
    for x in tl: cases.setdefault(x.split(":")[0], []).append(int(x.split(":")[1]))
    cov = {
        "states": o["paths"] + o["violated"] + o["assumed_away"],
        "transitions": o["forks"] + o["steps"],
        "traces_validated_against_impl": agree,
        "paths_completed": o["paths"], "paths_outside_assumptions": o["assumed_away"], "instructions_executed": o["steps"], "branches_forked": o["forks"],
        "solver": o["solver"], "queries_discharged": o["sat"] + o["unsat"], "queries_sat": o["sat"], "queries_unsat": o["unsat"], "queries_answered_from_cache": o["cached"],
        "assertions_decided_by_solver": o["asserts_solver"], "assertions_decided_by_constants": o["asserts_const"],
        "assertions": o["asserts"], "solver_s": round(o["solver_ns"] / 1e9, 3),
        "symbolic_bytes_at_most": o["max_vars"], "call_depth_at_most": o["max_depth"], "live_heap_bytes_at_most": o["max_live"],
        "witnesses_reached": o["reach"], "witnesses_missing": missing, "unsupported_or_unfinished": o["errors"], "tasks_not_fully_explored": sorted(unfinished)[:50], "problems": problems,
        "functions_encoded": {f["name"]: "%d of %d blocks executed" % (f["covered"], f["blocks"]) for f in ours},
        "bounds": {e: {"meaning": doc(e), "cases": compact(c)} for e, c in sorted(cases.items())},
        "samples": [{"entry": s["entry"], "case": s["case"], "input": s["input"][:200], "reached": s["reach"]} for s in rnd.sample(chosen, min(5, len(chosen)))] or ["none"],
        "tasks": len(o["tasks"]), "build_s": round(build_s, 1),
        "exhaustive": not problems and not fresh,
        "explanation": "Every feasible path of each harness entry through the compiled crate, for all values of the symbolic bytes of each case; nothing outside the listed cases.",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
          "assumptions": ["Bounds: shapes and numbers of symbolic bytes listed under bounds.", "The engine (symx), Z3 and rustc's code generation are trusted; a sample of paths and every counterexample is replayed against the native build.",
                          "Stand-ins: allocation never fails; HashMap's hash function and keys are replaced by a fixed function (all collide, or by bytes); panicking ends a path."]}
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    say("%s %s: %d tasks, %d paths, %d queries, %.1f s solver, %d/%d paths agree natively, %.1f s" % (prop, tier, len(tl), o["paths"], o["sat"] + o["unsat"], o["solver_ns"] / 1e9, agree, len(chosen), time.time() - t0))
    for v in listed: say("KNOWN-FINDING: property=%s %s %s:%s" % (prop, v["msg"], v["entry"], v["case"]))
    if fresh:
        for i, v in enumerate(fresh):
            path = os.path.join(EVID, "%s.replay%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "entry": v["entry"], "case": v["case"], "input": v["input"], "kind": v["kind"], "message": v["msg"], "profile": v["profile"], "native": v["native"], "trace": v["trace"],
                           "replay": "%s/replay.sh %s" % (HERE, path)}, f, indent=1)
            say("  %s case %s: %s: %s" % (v["entry"], v["case"], v["kind"], v["msg"]))
            say("  natively (%s): %s" % (v["profile"], v["native"]))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        say("INCOMPLETE:", "; ".join(problems))
        if missing or unattributed or 2 * len(unfinished) > len(tl): raise NoAnswer("explored %d of %d tasks; witnesses not reached: %s" % (len(tl) - len(unfinished), len(tl), missing))
    return 0


def doc(entry):
    """the comment above the function behind an entry"""
    src = open(os.path.join(HERE, "harness/src/main.rs")).read()
    i = src.find(entry + " = ")
    mod, fn = src[i + len(entry) + 3:].split(",")[0].strip().split("::")
    lines = open(os.path.join(HERE, "harness/src/%s.rs" % mod)).read().splitlines()
    for n, l in enumerate(lines):
        if l.startswith("pub fn %s(" % fn):
            c = []
            while n > 0 and lines[n - 1].startswith("///"): n -= 1; c.insert(0, lines[n][3:].strip())
            return " ".join(c)
    return ""


def compact(c):
    c = sorted(set(c))
    out, i = [], 0
    while i < len(c):
        j = i
        while j + 1 < len(c) and c[j + 1] == c[j] + 1: j += 1
        out.append(str(c[i]) if i == j else "%d-%d" % (c[i], c[j]))
        i = j + 1
    return " ".join(out)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        say("NO ANSWER:", e)
        sys.exit(2)
