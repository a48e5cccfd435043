#!/bin/bash
# build + run stable tests in /repo, list baseline tests that fail
bash /opt/vp/build.sh >/tmp/rt_b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/rt_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_o.json >/tmp/rt_t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt_o.json'))
def ids(d):
    for k in ('stable','passed','tests','stable_tests'):
        if k in d: return set(d[k])
    return set()
p=set(o.get('passed',[]))
m=[t for t in ids(b) if t not in p]
print('tests passed',len(p),'baseline',len(ids(b)),'missing',m[:10])
P
