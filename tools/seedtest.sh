#!/bin/bash
# seedtest.sh <seed> [check...]: does the seeded change pass the tests, does its demo see it, do the checks?
set -u
S=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 9; }
bash $S/demo.sh >/tmp/seed-demo0.log 2>&1; echo "demo clean: $? (want 0)"
git -C /repo apply $S/patch.diff || exit 9
trap 'git -C /repo checkout -- . ; rm -f /repo/tests/zz_seeded_demo.rs' EXIT
bash $S/demo.sh >/tmp/seed-demo1.log 2>&1; echo "demo seeded: $? (want 101)"; grep -E "^error|panicked|assertion" -A4 /tmp/seed-demo1.log | head -${LINES_SHOWN:-12}
[ -n "${NOTESTS:-}" ] || python3 /verif/tools/stable.py | tail -3
for c in "$@"; do
  /verif/run.sh $c >/tmp/seed-check.log 2>&1; echo "check $c: $? (want 1)"; grep -E "VIOLATION|violations" /tmp/seed-check.log | head -3
done
