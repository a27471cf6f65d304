#!/bin/bash
# Native runner of the harnesses: build_replay.sh c01[,c02...]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
T=${VERIF_TARGET:-$V/target}
export CARGO_TARGET_DIR=$T/replay RUSTFLAGS="--cap-lints=allow"
mkdir -p "$T/replay"
# one build at a time in a target directory
exec 9>"$T/replay.lock"; flock 9
cd "$V/replay"
find "$T/replay" -maxdepth 4 -type d -path '*/.fingerprint/bitcoin-cash*' -prune -exec rm -rf {} + 2>/dev/null || true
find "$T/replay" -maxdepth 4 -type d -path '*/.fingerprint/verif-replay*' -prune -exec rm -rf {} + 2>/dev/null || true
cargo build --offline -q --features "$1" >"$T/replay/build.log" 2>&1 || { tail -60 "$T/replay/build.log" >&2; exit 2; }
