#!/bin/bash
# usage: build_bc.sh OUT.bc  — bitcode of the harness and of /repo's current tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
tgt=${SYMX_TARGET:-$here/target}/bc
mkdir -p "$tgt"
rm -rf "$tgt"/release/deps/harness-* "$tgt"/release/deps/*jbcrs-* "$tgt"/release/.fingerprint/harness-* "$tgt"/release/.fingerprint/jbcrs-*
cd "$here/harness"
RUSTC_BOOTSTRAP=1 RUSTFLAGS="-C save-temps -C no-prepopulate-passes -Z mir-opt-level=0 -C symbol-mangling-version=v0" \
  cargo build --release --offline --target-dir "$tgt" >"$tgt/log" 2>&1 || true
f=$(ls "$tgt"/release/deps/harness*.lto.input.bc 2>/dev/null | head -1)
if [ -z "$f" ]; then grep -E "^error" -A8 "$tgt/log" | grep -v "undefined" | head -60; echo "no bitcode"; exit 3; fi
cp "$f" "$1"
