#!/bin/bash
# Extracts the MIR facts of the model library (/verif/models) into .build/models; cached
# on the content of the models and of the driver.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
"$here/bin/build_driver.sh"
key="$(cat "$here/models/src/lib.rs" "$here/driver/src/main.rs" "$here/driver/src/json.rs" | sha256sum | cut -c1-20)"
out="$here/.build/models"
[ "$(cat "$out/key" 2>/dev/null)" = "$key" ] && [ -s "$out/models-lib.json" ] && exit 0
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/.build/models-target"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
export RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER="$here/.build/driver/debug/seamfacts"
unset RUSTFLAGS || true
mkdir -p "$out"; rm -rf "$here/.build/models-target"
export SEAMFACTS_OUT="$out"
cd "$here/models"
cargo check --offline >"$out/log" 2>&1 || { tail -40 "$out/log" >&2; exit 3; }
echo "$key" >"$out/key"
