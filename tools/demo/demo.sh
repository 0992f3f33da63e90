#!/bin/bash
# Builds demo.rs against the library in /repo and runs the script of statements beside it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$t/"
cp "$here/demo.rs" "$t/src/main.rs"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
feat=; export RUSTFLAGS="-C target-cpu=x86-64"
if [ -e "$here/simd" ]; then feat="--features simd"; export RUSTFLAGS="-C target-cpu=x86-64-v3"; fi
cargo build -q --offline $feat --manifest-path "$t/Cargo.toml" --target-dir "$t/target" || exit 2
timeout 120 "$t/target/debug/demo" "$here/script"
