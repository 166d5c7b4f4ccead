#!/bin/bash
# Usage: extract.sh OUTDIR [REPO] : type-checks REPO (default /repo) with the driver as
# workspace wrapper and writes <crate>-<kind>.json facts into OUTDIR.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
out="$1"; repo="${2:-/repo}"
"$here/bin/build_driver.sh"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="${SEAMFACTS_TARGET:-$here/.build/target}"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
export RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER="$here/.build/driver/debug/seamfacts"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG || true
export SEAMFACTS_OUT="$out"
mkdir -p "$out" "$CARGO_TARGET_DIR"
# cargo's freshness cache would skip the wrapper: forget the workspace members.
for d in "$CARGO_TARGET_DIR"/debug/build/seam "$CARGO_TARGET_DIR"/debug/build/seam_argparse_proc_macro; do
  [ -d "$d" ] && rm -rf "$d"
done
find "$out" -maxdepth 1 -name '*.json' -delete
cd "$repo"
cargo check --offline --locked --workspace --lib --bins >"$out/cargo.log" 2>&1 || { tail -n 60 "$out/cargo.log" >&2; echo "extract: the tree does not type-check" >&2; exit 3; }
for f in seam-lib seam-bin; do [ -s "$out/$f.json" ] || { echo "extract: no facts for $f" >&2; exit 3; }; done
