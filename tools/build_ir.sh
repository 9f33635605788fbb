#!/bin/sh
# compile /repo and the contracts to LLVM IR; prints the list of modules
set -e
T=${1:-/verif/build/ll}
cd /verif/contracts
case "$T" in /verif/build/*) rm -rf "$T" ;; *) exit 2 ;; esac
mkdir -p "$T"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T" RUSTFLAGS="--emit=llvm-ir" cargo build --offline --target x86_64-unknown-linux-gnu >"$T.log" 2>&1
ls "$T"/x86_64-unknown-linux-gnu/debug/deps/*.ll | tr '\n' ',' | sed 's/,$//'
