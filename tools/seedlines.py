#!/usr/bin/env python3
"""which planted bugs change lines which are not in the original repository?"""
import glob, re, subprocess, os
B = {}
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None; bad = []; n = 0
    for l in open(p):
        m = re.match(r'--- a/(\S+)', l)
        if m: f = m.group(1); continue
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if f is None or l.startswith(('+', 'diff', 'index')): continue
        if l.startswith('-'):
            if f not in B: B[f] = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.splitlines()
            n += 1
            if not B[f][ln - 1].startswith('^'): bad.append('%s:%d' % (f, ln))
        ln += 1
    if bad or n == 0: print(os.path.basename(os.path.dirname(p)), n, bad)
