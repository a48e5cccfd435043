#!/usr/bin/env python3
"""newseed.py SPEC...: (re)generate seeded/<id>/ from tools/seeds/<id>.py: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...] and, after a line '#DEMO', the demonstration."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
for s in sys.argv[1:]:
    t = open('%s/tools/seeds/%s.py' % (V, s)).read(); spec, demo = t.split('#DEMO\n', 1); g = {}; exec(spec, g)
    w = tempfile.mkdtemp(prefix='ns'); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune']); subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, a, b in g['EDITS']:
        p = w + '/r/' + f; x = open(p).read(); assert x.count(a) == 1, (s, f, a, x.count(a)); open(p, 'w').write(x.replace(a, b))
    d = '%s/seeded/%s' % (V, s); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w + '/r', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout)
    shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom aw import *\n' + demo)
    shutil.copy(V + '/tools/seeds/aw.py', d + '/aw.py')
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    print(s)
