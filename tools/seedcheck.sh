#!/bin/bash
# seedcheck.sh ID [check ids...]: validate a planted bug (demo without, demo with, tests with) and run checks against it
d=/verif/seeded/$1; shift
cd /repo && git checkout -q -- . || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
if [ -z "$NODEMO" ]; then ( bash $d/demo.sh >/tmp/demo0.log 2>&1 ); echo "demo clean rc=$?"; fi
git apply $d/patch.diff || exit 2
if [ -z "$NODEMO" ]; then ( bash $d/demo.sh >/tmp/demo1.log 2>&1 ); echo "demo patched rc=$?"; tail -3 /tmp/demo1.log; fi
[ -n "$NOTEST" ] || bash /tmp/rt.sh
for c in "$@"; do ( cd /verif; python3 sa/check.py $c >/tmp/chk.log 2>&1; echo "check $c rc=$?"; grep -m3 '^  \[' /tmp/chk.log; grep -m2 "PROBLEM\|CANNOT" /tmp/chk.log ); done
git checkout -q -- .
