#!/bin/sh
# replay.sh MODULE HARNESS FILE: runs a counterexample natively against /repo's code
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1 RUSTFLAGS="--cfg mpst_verif"
cargo build -q --bin replay --features "$1" --target-dir ../target/native 2>/dev/null || exit 2
exec ../target/native/debug/replay "$1" "$2" "$3"
