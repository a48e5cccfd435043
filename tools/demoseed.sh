#!/bin/bash
# demoseed.sh ID...: does the demonstration of a planted bug tell the patched from the unpatched build? (scratch copies, no tests, no checks)
mk() { MAKEOBJDIR=$1/_build bmake -C $1 -j8 CC=gcc COPTS="-O1 -std=gnu99 -include /opt/vp/compat/freebsd.h -DLIBBSD_NETBSD_VIS -isystem /usr/include/x86_64-linux-gnu/bsd -DLIBBSD_OVERLAY" LDFLAGS="-Wl,--no-as-needed -lbsd" aardwarc >/tmp/ds.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/ds.log; }; }
T=$(mktemp -d /tmp/dsXXXXXX); cp -a /repo $T/a; mk $T/a
for s in "$@"; do
  cp -a $T/a $T/b; git -C $T/b apply /verif/seeded/$s/patch.diff || echo NO APPLY; mk $T/b
  (cd $T/a; timeout 300 bash /verif/seeded/$s/demo.sh >$T/o1 2>&1); r1=$?; (cd $T/b; timeout 300 bash /verif/seeded/$s/demo.sh >$T/o2 2>&1); r2=$?
  if [ $r1 = 0 -a $r2 != 0 ]; then echo "$s ok: $(grep BROKEN $T/o2 | head -1 | cut -c1-150)"; else echo "$s: unchanged $r1 patched $r2"; for o in $T/o1 $T/o2; do tail -n 4 $o | cut -c1-300; done; fi
  rm -r $T/b
done
rm -r $T
