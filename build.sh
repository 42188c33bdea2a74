#!/bin/bash
# Builds /verif/harness (simulator, scenarios) together with fenris from /repo's working tree.
cd "$(dirname "$0")/harness" || exit 3
. ./env.sh
out=$(flock "$CARGO_TARGET_DIR.lock" cargo build --offline -q 2>&1); rc=$?
[ $rc = 0 ] || echo "$out" | grep -A20 "^error" >&2
exit $rc
