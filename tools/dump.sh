#!/bin/bash
# dump.sh OUT.json [extra rustflags]: type-checks /repo's library with the driver, writes its MIR
set -e
OUT=$(readlink -f "$1"); shift; mkdir -p /verif/build
W=$(mktemp -d /verif/build/dump.XXXXXX)
trap 'rm -rf "$W"' EXIT
cd "${REPO:-/repo}"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export MIRDUMP_CRATE=congee MIRDUMP_OUT=$OUT
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -Awarnings $*"
LOCKED=; [ -f Cargo.lock ] && LOCKED=--locked
RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/mirdump cargo check --lib --offline $LOCKED --target-dir "$W" 
