#!/bin/bash
# Builds the fact extractor (a rustc driver) into /verif/.build; no-op when it is fresh.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/.build/driver"
export CARGO_INCREMENTAL=0
unset RUSTC_WORKSPACE_WRAPPER RUSTFLAGS || true
export RUSTC_WRAPPER=
mkdir -p "$here/.build"
cd "$here/driver"
cargo build --offline --quiet 2>"$here/.build/driver.log" || { cat "$here/.build/driver.log" >&2; exit 3; }
