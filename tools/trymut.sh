#!/bin/bash
# trymut.sh UNITS FILE SEDEXPR [FILE SEDEXPR]...: apply edits to a copy of /repo's sources, run units, show the violations
U=$1; shift; d=$(mktemp -d /tmp/tmut.XXXX); git -C /repo archive HEAD | tar x -C $d
while [ $# -gt 1 ]; do cp $d/$1 $d/$1.orig; sed -i -E "$2" $d/$1; diff $d/$1.orig $d/$1 | grep '^[<>]' || echo "NO CHANGE"; rm $d/$1.orig; shift 2; done
AARD_REPO=$d python3 /verif/check.py all --unit $U 2>&1 | grep -v "^KNOWN" | tail -${TAIL:-6}
rm -rf "$d"
