#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulator from /repo's working tree, then search.
# Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
log=$(mktemp) || exit 2
if ! bash build.sh >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "$1: the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "${CARGO_TARGET_DIR:-$PWD/sim/target}/x86_64-unknown-linux-gnu/release/crabsim" check "$@"
