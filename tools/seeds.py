#!/usr/bin/env python3
"""Planted bugs. `seeds.py make [ID...]` confirms each in a scratch copy of /repo (/tmp/seedwork) and writes seeded/ID;
`seeds.py run [--all-checks] [ID...]` applies each to /repo, runs the check of its property (quick) and undoes it."""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTFLAGS="-Awarnings", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
W = "/tmp/seedwork"
S = {}
def seed(id, prop, edits, demo, needs, breaks): S[id] = (prop, edits, demo, needs, breaks)

PRELUDE = r'''#![allow(unused)]
extern crate jbcrs;
use jbcrs::basic::*;
use jbcrs::*;
fn u2(x: u16) -> Vec<u8> { vec![(x >> 8) as u8, x as u8] }
fn u4(x: u32) -> Vec<u8> { vec![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
fn utf(s: &[u8]) -> Vec<u8> { [vec![1], u2(s.len() as u16), s.to_vec()].concat() }
fn head() -> Vec<u8> { vec![0xca, 0xfe, 0xba, 0xbe, 0, 0, 0, 52] }
/// pool entries given, count, what follows the pool
fn file(count: u16, pool: &[u8], rest: &[u8]) -> Vec<u8> { [head(), u2(count), pool.to_vec(), rest.to_vec()].concat() }
const EMPTY: &[u8] = &[0, 0x21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
fn with_pool(count: u16, pool: &[u8]) -> Vec<u8> { file(count, pool, EMPTY) }
fn attr(name: u16, body: &[u8]) -> Vec<u8> { [u2(name), u4(body.len() as u32), body.to_vec()].concat() }
/// a class with one attribute of this name (index 1); "Code" is 2, "Deprecated" 3, "X" 4
fn class_attrs(name: &str, attrs: &[Vec<u8>]) -> Vec<u8> {
    let p = [utf(name.as_bytes()), utf(b"Code"), utf(b"Deprecated"), utf(b"X")].concat();
    file(5, &p, &[vec![0, 0x21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], u2(attrs.len() as u16), attrs.concat()].concat())
}
fn class_attr(name: &str, body: &[u8]) -> Vec<u8> { class_attrs(name, &[attr(1, body)]) }
fn parsed(f: &[u8]) -> (Pool, Class) { match parse(f) { Ok(x) => x, Err(e) => { println!("rejected: {:?}", e); std::process::exit(1) } } }
fn first(f: &[u8]) -> Attribute { let (_, mut c) = parsed(f); c.attributes.remove(0) }
/// class attribute "Code" with this code array
fn code(insns: &[u8]) -> Vec<u8> { class_attrs("N", &[attr(2, &[u2(1), u2(1), u4(insns.len() as u32), insns.to_vec(), u2(0), u2(0)].concat())]) }
fn insns(f: &[u8]) -> std::collections::HashMap<u32, Instruction> { match first(f) { Attribute::Code { instructions, .. } => instructions, _ => panic!("not code") } }
fn show<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
macro_rules! same { ($a:expr, $b:expr) => { let (a, b) = (show(&$a), show(&$b)); if a != b { println!("{}\nexpected\n{}", a, b); std::process::exit(1) } } }
'''
DEMO_SH = r'''#!/bin/bash
# builds demo.rs against the crate in the working directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
rm -rf /tmp/jbcrs-demo
mkdir -p /tmp/jbcrs-demo/src || exit 9
cp "$here/demo.rs" /tmp/jbcrs-demo/src/main.rs
printf '[package]\nname = "demo"\nversion = "0.1.0"\n\n[dependencies]\njbcrs = { path = "%s" }\n\n[workspace]\n' "$repo" > /tmp/jbcrs-demo/Cargo.toml
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" /tmp/jbcrs-demo/Cargo.lock
(cd /tmp/jbcrs-demo && ulimit -v 8000000 && timeout 250 cargo run -q --offline)
rc=$?
rm -rf /tmp/jbcrs-demo
exit $rc
'''
exec(open(os.path.join(HERE, "tools/seedlist.py")).read())

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def passing(out): return sorted(set(re.sub(r" \(line \d+\)", "", x) for x in re.findall(r"^test (.+?) \.\.\. ok", out, re.M)))
def errs(out): return "\n".join(x for x in re.split(r"\n(?=warning|error)", out) if not x.startswith("warning"))[-1200:]

def make(ids):
    if os.path.exists(W): subprocess.check_call(["rm", "-rf", "/tmp/seedwork"])
    subprocess.check_call(["cp", "-a", "/repo", W])
    base = passing(sh(["cargo", "test", "--workspace", "--offline"], W).stdout)
    assert len(base) >= 20, base
    for id in ids:
        prop, edits, demo, needs, breaks = S[id]
        d = os.path.join(HERE, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.rs", "w").write(PRELUDE + demo)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W)
        clean = sh(["bash", d + "/demo.sh"], W)
        for f, a, b in edits:
            p = os.path.join(W, "src", f)
            s = open(p).read()
            if s.count(a) != 1: print(id, "BAD EDIT", f, repr(a[:60]), s.count(a)); break
            open(p, "w").write(s.replace(a, b))
        else:
            diff = sh(["git", "diff"], W).stdout
            open(d + "/patch.diff", "w").write(diff)
            t = sh(["cargo", "test", "--workspace", "--offline", "--no-fail-fast"], W)
            got = passing(t.stdout)
            bad = sh(["bash", d + "/demo.sh"], W)
            ok = clean.returncode == 0 and bad.returncode != 0 and set(base) <= set(got)
            comp = "could not compile" in bad.stdout
            print(id, "ok" if ok and not comp else "REJECTED", "clean=%d bug=%d tests=%d/%d" % (clean.returncode, bad.returncode, len(set(base) & set(got)), len(base)), "" if ok and not comp else errs(clean.stdout) + "\n---\n" + errs(bad.stdout) + str(sorted(set(base) - set(got))), flush=True)
            continue
    subprocess.check_call(["rm", "-rf", "/tmp/seedwork"])

def run(ids, allchecks=False):
    for id in ids:
        prop = S[id][0]
        p = os.path.join(HERE, "seeded", id, "patch.diff")
        subprocess.check_call(["git", "-C", "/repo", "apply", p])
        try:
            for c in (["C%02d" % i for i in range(1, 39)] if allchecks else [prop]):
                t0 = time.time()
                r = subprocess.run(["python3", "check.py", c, "quick"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                hit = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
                if c == prop or r.returncode != 0:
                    print(id, c, "CAUGHT" if hit else "missed" if r.returncode == 0 else "rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), (r.stdout.splitlines() or [""])[1 if hit and len(r.stdout.splitlines()) > 1 else -1][:200], flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])

if __name__ == "__main__":
    a = sys.argv[2:]
    allc = "--all-checks" in a
    a = [x for x in a if not x.startswith("--")]
    ids = [x for x in S if not a or x in a or any(x.startswith(y + "-") for y in a)]
    make(ids) if sys.argv[1] == "make" else run(ids, allc)
