#!/bin/bash
# tryscratch.sh ID [PROP [UNITS]]: the check of a planted bug's property against a scratch copy of /repo with the bug
set -u
V=$(cd "$(dirname "$0")/.." && pwd); id=$1
P=${2:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
S=$(mktemp -d /tmp/ts.XXXXXX); cp -a /repo "$S/r"
git -C "$S/r" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; exit 2; }
AARD_REPO=$S/r timeout 880 python3 "$V/check.py" "$P" ${3:+--unit $3} > "$S/log" 2>&1; r=$?
echo "$id $P: exit $r  $(grep -c ^VIOLATION "$S/log") violations; $(grep -m1 -A1 ^VIOLATION "$S/log" | tr '\n' ' ' | cut -c1-300)"
[ $r -le 1 ] || tail -5 "$S/log"
rm -rf "$S"
