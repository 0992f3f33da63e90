#!/bin/bash
# run.sh PROPERTY quick|thorough: builds everything from /repo's working tree and decides one property.
# Exit 0: holds within the bounds; 1: VIOLATION; 3: no answer (build failure, unsupported code, time).
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}
KIND=; FEAT=; RF="-C target-cpu=x86-64"
case $P in C18*) KIND=simd; FEAT="--features simd"; RF="-C target-cpu=x86-64-v3";; esac
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTFLAGS
B=$V/build
W=$B/$P
mkdir -p "$B" "$V/evidence"
rm -rf "${W:?}"
mkdir -p "$W"
(cd "$V/engine" && cargo build --release --offline --locked -q --target-dir "$B/engine") >"$W/engine.log" 2>&1 & E=$!
(cd "$V/replay" && RUSTFLAGS="$RF" cargo build --release --offline --locked -q $FEAT --target-dir "$W/replay") >"$W/replay.log" 2>&1 & R=$!
"$V/tools/prep.sh" "$W/ir" $KIND >"$W/prep.log" 2>&1 & I=$!
wait $E || { cat "$W/engine.log"; echo "ERROR property=$P the checking program does not build"; exit 3; }
wait $R || { tail -20 "$W/replay.log"; echo "ERROR property=$P /repo does not build"; exit 3; }
wait $I || { tail -20 "$W/prep.log"; echo "ERROR property=$P no IR from /repo"; exit 3; }
cd "$V" || exit 3
"$B/engine/release/engine" check "$P" "$TIER" "$W/ir" "$V/evidence/$P.json" "${VERIF_SEED:-1}" "$W/replay/release/vreplay"
RC=$?
[ $RC = 0 ] && rm -rf "${W:?}"
exit $RC
