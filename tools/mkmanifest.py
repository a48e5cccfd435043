#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import units as U
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = getattr(U, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    us = [u for u in U.UNITS if p["id"] in u["props"]]
    if us and p["id"] not in NA:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3, QF_BV), counterexamples replayed on the native build",
            level="model_checking",
            level_note=("Every path of the harness units %s is executed symbolically over the IR of /repo's sources; the solver decides each assertion for all values within: %s. Outside these bounds nothing is claimed. Trusted: clang's IR generation, the engine in engine/, Z3, and the models of libc, file system, zlib and SHA-256 in env/ (sampled paths are compared with the native build on every run)."
              % (", ".join(u["name"] for u in us), " | ".join(u["name"] + ": " + u["bounds"] for u in us)))))
    else: na.append(dict(property=p["id"], reason=NA.get(p["id"], "not built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na, notes="One driver, check.py; units in units.py, harnesses in harness/, engine in engine/, environment models in env/.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
