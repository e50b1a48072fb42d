#!/bin/bash
# demoshow.sh SEED [patched]: runs the demo with its output.
S=/verif/seeded/$1
[ -n "${2:-}" ] && git -C /repo apply $S/patch.diff
sed 's/--test-threads 1/--test-threads 1 --nocapture/' $S/demo.sh > $S/d2.sh; bash $S/d2.sh 2>&1 | grep -v "^ *Compil\|^warn"; rm $S/d2.sh
[ -n "${2:-}" ] && git -C /repo checkout -- .
