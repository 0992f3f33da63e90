#!/bin/bash
# prep.sh DIR [simd]: builds the harness against /repo's working tree, links and simplifies the LLVM IR,
# and leaves o1.ll (program), nm (symbols), img (memory image) and layout in DIR.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; KIND=$2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
CPU=x86-64; FEAT=
if [ "$KIND" = simd ]; then CPU=x86-64-v3; FEAT="--features simd"; fi
mkdir -p "$OUT"
TD="$OUT/target"
cd "$V/harness"
RUSTFLAGS="-C target-cpu=$CPU -C relocation-model=static -C no-prepopulate-passes --emit=llvm-ir,link" \
  cargo build --release --offline --locked -q --target-dir "$TD" $FEAT
D=$TD/release/deps
"$T/llvm-link" -S "$D"/vh-*.ll "$D"/yasai-*.ll "$D"/shogi_core-*.ll "$D"/arrayvec-*.ll "$D"/once_cell-*.ll -o "$OUT/all.ll"
API=$(grep -o '@h_[a-z_]*' "$OUT/all.ll" | sort -u | tr -d '@' | paste -sd,)
"$T/opt" -S --internalize-public-api-list=$API -inline-threshold=100000 \
  -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,sroa,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce' \
  "$OUT/all.ll" -o "$OUT/o1.ll"
"$T/llvm-nm" "$TD/release/vh" > "$OUT/nm"
"$TD/release/vh" "$OUT/img" "$OUT/layout" > "$OUT/warm"
rm -rf "$OUT/all.ll"
