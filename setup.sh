#!/bin/bash
# Builds the harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness && build_lite && build_tokens hw && build_tokens ctap
