#!/bin/bash
# Builds the MIR extractor (a rustc driver) from the committed sources, offline.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$here/.build/driver"
cd "$here/driver"
cargo build --release --offline -q
test -x "$CARGO_TARGET_DIR/release/dcp-mir"
