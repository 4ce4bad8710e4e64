#!/bin/bash
# Builds the harness once (each check builds again from /repo's working tree).
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export CARGO_NET_OFFLINE=true
RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$PWD/harness/target" cargo build --release --offline --locked --manifest-path harness/Cargo.toml
