#!/bin/bash
# ./run.sh <property> <quick|thorough>: rebuild the harness against /repo's working tree and run one check.
# Exit 0: held; 1: violation; 2: usage; 3: error of the check; 4: does not build.
cd "$(dirname "$0")" || exit 2
. ./env.sh
with=$(tokens_of "$1")
if ! build_harness || { [ "$1" = C33 ] && ! build_lite; } || { [ -n "$with" ] && ! build_tokens "$with"; }; then
  echo "BUILD FAILED: /repo (or the harness against it) does not compile" >&2
  exit 4
fi
[ -n "$with" ] && VBIN="$CARGO_TARGET_DIR/$with/debug/v$with"
exec "$VBIN" check "$1" "$2" "${@:3}"
