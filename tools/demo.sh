#!/bin/bash
# Runs the demonstration beside this script as an integration test of the crate, in the build folder.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=zz_seeded_demo
trap 'rm -f /repo/tests/$T.rs' EXIT
cat "$D/h.rs" "$D/demo.rs" > /repo/tests/$T.rs
. /opt/vp/env.sh
python3 /opt/vp/mkws.py && cd /opt/vp/ws || exit 3
timeout 280 cargo test $FEATURES --offline --test $T -- --test-threads 1
