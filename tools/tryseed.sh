#!/bin/bash
# tryseed.sh ID [noprop]: apply a planted bug to /repo, build, test, run its demo and the check of its property; undo it all
D=/verif/seeded/$1; cd /repo || exit 2
git diff --quiet || { echo "/repo is not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh >/tmp/seed.b0 2>&1; timeout 300 bash $D/demo.sh >/tmp/seed.d0 2>&1; echo "demo unchanged: $? (want 0)"
sleep 1.2; git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed.b1 2>&1 || { echo "does not build"; tail -5 /tmp/seed.b1; }
/verif/tools/repotest.sh | tail -1
timeout 300 bash $D/demo.sh >/tmp/seed.d1 2>&1; echo "demo patched: $? (want nonzero)"; tail -2 /tmp/seed.d1
cd /verif; if [ -z "$2" ]; then for p in $P; do timeout 900 python3 check.py $p 2>&1 | grep -v "^unit" | cut -c1-240 | head -6; done; fi
sleep 1.2; git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
