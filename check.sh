#!/bin/bash
# check.sh ID [quick|thorough]   decides one property on the tree in /repo
# check.sh replay FILE           re-executes a recorded violation
# check.sh build                 builds the checker
# check.sh list                  lists checks and their trees
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
. mc/env.sh
export CARGO_TARGET_DIR="$PWD/mc/target"
log=$(mktemp)
if ! (cd mc && cargo build --offline --quiet) >"$log" 2>&1; then
    grep -A8 "^error" "$log" | head -60 >&2
    rm -f "$log"
    echo "the checker could not be built" >&2
    exit 2
fi
# the build with the link-time registry, for C07
export MC_STATIC="$PWD/mc/target/debug/mcstatic"
case "$1" in
C07 | build | replay)
    if ! (cd mc-static && cargo build --offline --quiet) >"$log" 2>&1; then
        grep -A8 "^error" "$log" | head -60 >&2
        rm -f "$log"
        echo "the checker could not be built with the link-time registry" >&2
        exit 2
    fi
    ;;
esac
rm -f "$log"
case "$1" in
build) exit 0 ;;
list | replay) exec mc/target/debug/mc "$@" ;;
esac
exec mc/target/debug/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
