#!/bin/bash
# check.sh ID: rebuilds the simulator with the crates of /repo's working tree and runs the check of one property.
# Exit 0: held on everything explored. 1: violation. Anything else: error of the check.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_INCREMENTAL RUSTFLAGS CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG RUST_BACKTRACE
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT
cd "$ROOT/sim" || exit 2
LOG=$(mktemp) || exit 2
trap 'rm -f "$LOG"' EXIT
BINS="--bin csvsim"
if [ "$1" = C18 ]; then
    # The exporter and the disk it runs on.
    BINS="$BINS --bin commit-stl"
    mkdir -p "$ROOT/target" && gcc -shared -fPIC -O1 -o "$ROOT/target/simdisk.so" simdisk.c -ldl || exit 2
fi
if ! cargo build --offline --target-dir "$ROOT/target" $BINS > "$LOG" 2>&1; then
    tail -60 "$LOG"
    echo "the simulator does not build against /repo"
    exit 2
fi
export VERIF_PRODUCTION=0
if [ "$VERIF_TIER" = thorough ] || [ "$1" = C03 ] || [ "$1" = C09 ] || [ "$1" = C15 ]; then
    [ "$1" = C18 ] || VERIF_PRODUCTION=1
fi
if [ $VERIF_PRODUCTION = 1 ] && ! cargo build --offline --release --target-dir "$ROOT/target" --bin csvsim > "$LOG" 2>&1; then
    tail -60 "$LOG"
    echo "the production build of the simulator does not build against /repo"
    exit 2
fi
"$ROOT/target/debug/csvsim" check "$1"
