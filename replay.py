#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample on the natively compiled code and print what happens."""
import json, shutil, sys, tempfile
import check as C, units as U
v = json.load(open(sys.argv[1])); un = [u for u in U.UNITS if u["name"] == v["unit"]][0]
w = tempfile.mkdtemp(prefix="aardreplay")
try:
    b = C.Build(w); b.compile(); b.link(un["file"])
    print("input:", v["in"]); print("expected:", v["kind"], v["msg"], "at", v["where"], "(%s)" % v["trace"])
    print("native:", C.native(w, un, v["args"], v["in"], 60, v["property"]))
finally: shutil.rmtree(w, ignore_errors=True)
