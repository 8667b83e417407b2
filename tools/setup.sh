#!/bin/sh
# Builds the harness in every configuration the checks use (offline).
set -e
cd "$(dirname "$0")/../harness"
export CARGO_NET_OFFLINE=true
cargo build --offline
cargo build --offline --release
cargo build --offline --no-default-features --features ser-borsh --target-dir target/borsh
cargo build --offline --release --no-default-features --features ser-borsh --target-dir target/borsh
