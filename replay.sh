#!/bin/bash
# ./replay.sh <file>: run one recorded case again.
cd "$(dirname "$0")" || exit 2
. ./env.sh
with=$(tokens_of "$(sed -n 's/.*"property" *: *"\(C[0-9]*\)".*/\1/p;s/^property[ =:]*\(C[0-9]*\).*/\1/p' "$1" | head -1)")
build_harness && build_lite || exit 4
[ -n "$with" ] && { build_tokens "$with" || exit 4; VBIN="$CARGO_TARGET_DIR/$with/debug/v$with"; }
exec "$VBIN" replay "$1"
