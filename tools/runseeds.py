#!/usr/bin/env python3
"""Applies each seeded bug to /repo in turn, runs its property's check, and undoes it.  usage: runseeds.py [id ...] [--prop C01]"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
prop = None
if "--prop" in a:
    k = a.index("--prop"); prop = a[k + 1]; del a[k:k + 2]
for i in a or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    d = os.path.join(HERE, "seeded", i)
    p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    t = time.time()
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p], capture_output=True, text=True, cwd=HERE)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    out = r.stdout.strip().split("\n")
    caught = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % p) for l in out)
    print("%-28s %s %s %.0fs %s" % (i, p, "caught" if caught else "MISSED rc=%d" % r.returncode, time.time() - t, out[-2 if caught else -1][:300]), flush=True)
