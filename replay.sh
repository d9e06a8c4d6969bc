#!/bin/bash
# replay.sh REPLAY.json — runs a reported counterexample natively against /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" "$1" <<'E'
import json, sys
sys.path.insert(0, sys.argv[1])
import check
import os
os.makedirs(check.WORK, exist_ok=True)
v = json.load(open(sys.argv[2]))
exe = check.build_native(check.tree_hash(), v["profile"])
bad, how, reach = check.native(exe, v["entry"], v["case"], v["input"])
if not bad and how == "completed" and v["kind"] == "steps": bad, how = check.overworked(exe, v)
print("%s case %s, input %s" % (v["entry"], v["case"], v["input"]))
print("expected:", v["message"])
print(("reproduced: " if bad else "not reproduced: ") + how)
sys.exit(1 if bad else 0)
E
