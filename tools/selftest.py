"""Compares what the engine computes with the native run on entries (default: t_*, which exercise the language and its
library): python3 tools/selftest.py [SECONDS] [ENTRY...]"""
import glob, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
a = sys.argv[1:]
secs = a.pop(0) if a and a[0].isdigit() else "20"
entries = a or ["t_btree", "t_hash", "t_deque", "t_slices", "t_strings", "t_ints", "t_floats", "t_objects"]
ll, _ = check.build("")
out = os.path.join(check.TGT, "selftest.json")
subprocess.run([check.ENGINE, ll, "--out", out, "--threads", "4", "--seed", "1", "--samples", "2000"] + [f"{e}={secs}" for e in entries], check=True, stderr=subprocess.DEVNULL)
bad = 0
for r in json.load(open(out)):
    s = [(r["entry"], x) for x in r["samples"]]
    ok, values, differ, failed = check.validate(s)
    print(r["entry"], r["paths"], "paths", ok, "of", len(s), "agree,", values, "values", r["trouble"], r["engine_errors"], [v["msg"] for v in r["violations"]][:3])
    for d in differ[:3]:
        print("   ", d)
    bad += len(differ) + len(failed) + len(r["violations"])
os.remove(out)
sys.exit(bad > 0)
