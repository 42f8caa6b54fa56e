#!/usr/bin/env python3
"""Re-run the single case a VIOLATION line points at: replay.py evidence/replay/CNN_k.json"""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check as rc
r = json.load(open(sys.argv[1]))
print("key:", r["key"])
if not r["harness"]:
    print(r["detail"]); sys.exit(1)
tmp = tempfile.mkdtemp(prefix="vf_replay_")
src = os.path.join(rc.VERIF, "harness", r["harness"])
exe = os.path.join(tmp, "h")
code, out, _ = rc.compile_one(src, r["config"], exe, rc.directives(src))
if code:
    print(out); sys.exit(1)
argv = [exe, "run", r["family"], str(r["idx"]), str(r["idx"] + 1), str(r["seed"]), tmp + "/p", tmp + "/o.json"]
if r["tier"] == "thorough": argv.append("thorough")
p = subprocess.run(argv, env=rc.ENV, cwd=tmp)
bad = p.returncode != 0
if os.path.exists(tmp + "/o.json"):
    o = json.load(open(tmp + "/o.json"))
    for f in o["failures"]:
        bad = True
        print(f["key"], f["detail"])
shutil.rmtree(tmp, ignore_errors=True)
sys.exit(1 if bad else 0)
