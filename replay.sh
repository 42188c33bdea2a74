#!/bin/bash
# replay.sh FILE: replays a recorded violation against /repo's working tree (exit 1: it occurs again).
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
. harness/env.sh
./build.sh >&2 || exit 3
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/dst" replay "$@"
