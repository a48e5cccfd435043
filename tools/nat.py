#!/usr/bin/env python3
"""nat.py UNIT in...: run one input natively and print the notes (debugging aid)"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as C, units as U
un = [u for u in U.UNITS if u["name"] == sys.argv[1]][0]
w = tempfile.mkdtemp(prefix="aardnat")
try:
    b = C.Build(w); b.compile(); b.link(un["file"])
    for l in " ".join(sys.argv[2:]).split(","): print(l, C.native(w, un, dict(un["args"], **un["quick"].get("args", {})), l.split(), 60))
finally: shutil.rmtree(w, ignore_errors=True)
