#!/bin/bash
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=${VERIF_TARGET:-$V/target}/engine RUSTFLAGS=-Awarnings
cd "$V/engine"
cargo build --release --offline -q
