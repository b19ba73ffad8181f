#!/bin/bash
# check.sh PROPERTY: rebuild the harness from /repo's working tree and decide one property.
# Exit 0: held on everything explored; 1: VIOLATION; 2: no answer (harness or default build failed).
set -u
cd "$(dirname "$0")" || exit 2
export VH_ROOT="$PWD"
prop="${1:?property}"
. ./build.sh || exit 2
build_default || exit 2
if [ "$prop" = C19 ]; then
    export VH_OTHER="$VH_ROOT/target/vhts/release/vh" VH_OTHER_LOG="$VH_ROOT/target/vhts.log"
    build_threadsafe >"$VH_OTHER_LOG" 2>&1 || { cat "$VH_OTHER_LOG" >&2; rm -f "$VH_OTHER"; }
fi
ulimit -c 0
exec "$VH_ROOT/target/vh/release/vh" check "$prop"
