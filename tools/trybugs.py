#!/usr/bin/env python3
"""trybugs.py FILE [N,..]: FILE is a python file with BUGS = [(property, [(source, old, new), ...], note)].  Each bug is applied
to a copy of /repo's sources and the quick check of its property run against it."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); g = {}
exec(open(sys.argv[1]).read(), g); sel = [int(x) for x in sys.argv[2].split(",")] if len(sys.argv) > 2 else range(len(g["BUGS"]))
for k in sel:
    prop, edits, note = g["BUGS"][k]; d = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True); bad = ""
    for f, a, b in edits:
        s = open(d + "/" + f).read()
        if s.count(a) != 1: bad = "%s: %d matches of %r" % (f, s.count(a), a)
        open(d + "/" + f, "w").write(s.replace(a, b, 1))
    if bad: print(k, prop, "BAD", bad, flush=True); shutil.rmtree(d); continue
    p = subprocess.run(["python3", V + "/check.py", prop], env=dict(os.environ, AARD_REPO=d), capture_output=True, text=True)
    o = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]; det = [l.strip()[:150] for l in p.stdout.splitlines() if "assert" in l or "abort" in l.lower()][:1]
    print(k, prop, "CAUGHT" if p.returncode == 1 else "MISSED" if p.returncode == 0 else "rc%d %s" % (p.returncode, (p.stdout + p.stderr)[-300:]), note, "|", (det or o[:1]), flush=True)
    shutil.rmtree(d)
