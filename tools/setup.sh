#!/bin/bash
# Builds the checking program (the checks build it themselves if it is missing).
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$V/engine" && cargo build --release --offline --locked -q --target-dir "$V/build/engine"
