#!/bin/bash
# check.sh ID [--thorough]: builds the simulation from /repo's working tree and decides property ID.
# Exit 0 held, 1 violated (VIOLATION line), 3 could not tell.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR=$PWD
. harness/env.sh
./build.sh >&2 || { echo "check.sh: build failed" >&2; exit 3; }
BIN=$CARGO_TARGET_DIR/debug/dst
ulimit -c 0
exec "$BIN" check "$@"
