#!/bin/bash
# Usage: run.sh <check id> [args]. Builds the harness against /repo's working tree, runs one check.
# Exit 0: held on everything explored; 1: violation; anything else: the harness could not run.
set -u
. /verif/env.sh
# C27 is about the console, a program of its own: it has a binary of its own.
case "${1:-}" in
  '') bins="--bin dfd-mc --bin dfd-console" ;;
  C27) bins="--bin dfd-console" ; exe=/verif/target/mc/dfd-console ;;
  *) bins="--bin dfd-mc" ; exe=/verif/target/mc/dfd-mc ;;
esac
mkdir -p /verif/target /verif/evidence /verif/replay
(
  flock 9
  h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.proto' -o -name Cargo.toml -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ ! -f /verif/target/stamp ] || [ "$h" != "$(cat /verif/target/stamp)" ]; then
    # Contents changed: never trust modification times.
    rm -rf /verif/target/mc/.fingerprint/datafusion-distributed-* /verif/target/mc/.fingerprint/dfd-mc-*
    rm -f /verif/target/stamp
  fi
  cd /verif/mc && cargo build --profile mc --offline $bins >/verif/target/build.log 2>&1 || exit 1
  echo "$h" >/verif/target/stamp
) 9>/verif/target/lock
if [ $? -ne 0 ]; then
  grep -E -A8 '^error' /verif/target/build.log | head -60
  echo "BUILD-FAILED: the harness does not build against /repo (see /verif/target/build.log)"
  exit 2
fi
[ $# -eq 0 ] && exit 0
id=$1
"$exe" "$@"
rc=$?
case $rc in
  0|1|2) exit $rc ;;
esac
echo "the explorer died with status $rc; running again on one thread"
MC_THREADS=1 "$exe" "$@"
rc=$?
case $rc in
  0|1|2) exit $rc ;;
esac
if [ $rc -eq 134 ] || [ $rc -eq 139 ]; then
  # Aborted (stack overflow, double panic) inside the explored code, twice.
  echo "{\"property\":\"$id\",\"status\":$rc,\"note\":\"process aborted while exploring\"}" >/verif/replay/$id-abort.json
  echo "VIOLATION property=$id replay=/verif/replay/$id-abort.json"
  exit 1
fi
exit 2
