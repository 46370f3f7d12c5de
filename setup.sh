#!/bin/bash
# Builds the simulator once; every check rebuilds it from /repo's working tree anyway.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
ROOT=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$ROOT/target"
cd "$ROOT/sim" || exit 2
gcc -shared -fPIC -O1 -o "$ROOT/target/simdisk.so" simdisk.c -ldl
cargo build --offline --target-dir "$ROOT/target" && cargo build --offline --release --bin csvsim --target-dir "$ROOT/target"
