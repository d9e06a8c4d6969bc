#!/bin/bash
# builds the symbolic engine; the checks build the rest from /repo's current tree
set -e
cd "$(dirname "$0")/engine"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --release --offline
