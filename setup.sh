#!/bin/bash
# Builds the driver and the analyser from the committed sources (offline).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=
unset RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER
export CARGO_TARGET_DIR=$PWD/build/engine
mkdir -p build evidence
cd engine
cargo build --release --offline
