#!/usr/bin/env python3
"""Compares the explorations with and without the state cache: for every scenario and small bounds the sets of final
states (histories of all threads) have to be the same. Usage: cachecheck.py [C01 ...] [--execs N]"""
import sys, os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
N = 200000
props = [a for a in sys.argv[1:] if a.startswith("C")] or ["C%02d" % i for i in range(1, 28)]
def one(a):
    exe, s, b, w = a
    def go(x):
        p = subprocess.run([exe, "--run", s, "--bound", str(b), "--weak", str(w), "--finals", "--time", "100"] + x, capture_output=True, text=True)
        try: return json.loads(p.stdout.strip().split("\n")[-1])
        except Exception: return {"error": p.stdout[-300:] + p.stderr[-300:]}
    n = go(["--nocache", "--max-exec", str(N)])
    if "error" in n: return a, "error", n, None
    if n["capped"] or n["completed"] < 0: return a, "capped", n, None
    c = go([])
    if "error" in c: return a, "error", c, None
    ok = n["finals"] == c["finals"] and n["finals_hash"] == c["finals_hash"] and set(n["outcomes"]) == set(c["outcomes"]) and ("violation" in n) == ("violation" in c)
    return a, "same" if ok else "DIFF", n, c
jobs = []
for p in props:
    exe = check.build(p)
    for l in subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.split("\n"):
        f = l.split()
        if not f: continue
        bq, wq = int(f[1]), int(f[3])
        for b in range(0, max(bq, 0) + 1):
            for w in sorted({0, min(wq, 1)}): jobs.append((exe, f[0], b, w))
tot = {}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
    for a, r, n, c in ex.map(one, jobs):
        tot[r] = tot.get(r, 0) + 1
        if r in ("DIFF", "error"): print(os.path.basename(a[0])[:3], a[1], "bound", a[2], "weak", a[3], r, n.get("finals"), c and c.get("finals"), n.get("executions"), c and c.get("executions"), n.get("error", "")[:200], flush=True)
print(tot)
