#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_gosym force || exit 2
# warm the compiler cache for the replay binaries
(cd /repo && go build ./... ) >/dev/null 2>&1
exit 0
