#!/usr/bin/env python3
"""which source files does each unit execute? -> build/cov.json (for mutate.py)"""
import sys, os, json, tempfile, subprocess, re, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check, units, glob
fn = {}
for f in glob.glob("/repo/*.c"):
    p = None
    for l in open(f):
        m = re.match(r'^(\w+)\(', l)
        if m: fn.setdefault(m.group(1), os.path.basename(f))
exe = check.build_engine(); w = tempfile.mkdtemp(); B = check.Build(w); B.compile()
with cf.ThreadPoolExecutor(8) as ex: list(ex.map(B.link, sorted({u["file"] for u in units.UNITS})))
def one(u):
    q = dict(u["quick"]); q["time"] = min(25, q["time"]); R = check.run_unit(B, exe, dict(u, quick=q), "all", "quick", 1, False)
    return u["name"], sorted({fn[f.split(".")[0]] for f in R["functions"] if f.split(".")[0] in fn})
with cf.ThreadPoolExecutor(8) as ex: r = dict(ex.map(one, units.UNITS))
json.dump(r, open(V + "/build/cov.json", "w"), indent=1)
for k, v in r.items(): print(k, len(v))
