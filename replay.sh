#!/bin/bash
# replay.sh FILE: rebuilds the simulator and repeats the execution recorded in a replay file.
# Exit 1: the violation shows again; 0: it does not.
FILE=$(realpath "$1") || exit 2
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
"$ROOT/setup.sh" > /dev/null 2>&1 || { echo "the simulator does not build"; exit 2; }
exec "$ROOT/target/debug/csvsim" replay "$FILE"
