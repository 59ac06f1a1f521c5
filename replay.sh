#!/bin/bash
# replay.sh FILE: run one replay file against /repo's working tree. Exit 10 and the violation if it
# shows one, 0 if it does not, anything else if the process died.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
bash build.sh >/dev/null 2>&1 || { echo "does not build" >&2; exit 2; }
exec "${CARGO_TARGET_DIR:-$PWD/sim/target}/x86_64-unknown-linux-gnu/release/crabsim" replay "$f"
