#!/bin/bash
# Builds the simulator against /repo's working tree. The crates are compiled with rustc's
# ThreadSanitizer pass, atomics only; sim/shim/detsched.c stands in for the sanitizer's runtime.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=stable
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$PWD/target}"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
# A build that was killed may have left the incremental state half written; then without it.
cargo build --offline --release --target x86_64-unknown-linux-gnu "$@" ||
    CARGO_INCREMENTAL=0 cargo build --offline --release --target x86_64-unknown-linux-gnu "$@" || exit 2
