#!/bin/bash
# dump.sh CONFIG OUT : type-check the client against /repo with the driver, write the IR
set -e
cd "$(dirname "$0")/.."
CONFIG=$1; OUT=$2
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER
B=$PWD/build
export CARGO_TARGET_DIR=$B/client-$CONFIG
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$B/engine/release/ps_driver
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings"
export PS_IR_OUT=$OUT PS_IR_CONFIG=$CONFIG
rm -f "$OUT"
F=""
[ "$CONFIG" = full ] && F="--features full"
cd client
# cargo's freshness cache must never stand between us and the current source
if [ -d "$CARGO_TARGET_DIR" ]; then
  find "$CARGO_TARGET_DIR" \( -name 'ps_client*' -o -name 'ps-client*' -o -name 'libps_client*' -o -name 'pic-scale*' -o -name 'pic_scale*' -o -name 'libpic_scale*' \) -prune -exec rm -rf {} +
fi
cargo check --offline $F 2>&1
[ -s "$OUT" ]
