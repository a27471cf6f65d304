#!/bin/bash
# Compiles the harnesses of some properties with /repo's current sources to
# optimised LLVM IR:  build_ll.sh OUT.ll c01[,c02...]
set -e -o pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1
FEAT=$2
. /opt/vp/env.sh
T=${VERIF_TARGET:-$V/target}
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=$T/sym
export RUSTFLAGS="--cap-lints=allow -Csave-temps -Cno-prepopulate-passes"
mkdir -p "$T/sym"
# one build at a time in a target directory
exec 9>"$T/sym.lock"; flock 9
cd "$V/symbuild"
# always recompile /repo's crates and the harness, whatever the time stamps say
find "$T/sym" -maxdepth 5 -type d -path '*/.fingerprint/bitcoin-cash*' -prune -exec rm -rf {} + 2>/dev/null || true
find "$T/sym" -maxdepth 5 -type d -path '*/.fingerprint/verif-sym*' -prune -exec rm -rf {} + 2>/dev/null || true
find "$T/sym" -name '*.lto.after-restriction.bc' -delete 2>/dev/null || true
find "$T/sym" -name '*verif_sym*' -type f -delete 2>/dev/null || true
cargo build --release --offline -q -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu --features "$FEAT" >"$T/sym/build.log" 2>&1 || { tail -60 "$T/sym/build.log" >&2; exit 2; }
BC=$(find "$T/sym" -name '*.lto.after-restriction.bc' | head -1)
[ -n "$BC" ] || { echo "no bitcode" >&2; exit 2; }
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
EXP=$(for f in ${FEAT//,/ }; do cat "$V/harness/src/$f.rs"; done | grep -ohE '^ *fn c[0-9][0-9]_[a-z0-9_]+' | awk '{print $2}' | paste -sd,)
W=$(mktemp -d)
"$B/opt" -passes='internalize,globaldce' -internalize-public-api-list="$EXP" "$BC" -o "$W/a.bc"
"$B/opt" -O1 --vectorize-loops=false --vectorize-slp=false "$W/a.bc" -S -o "$W/b.ll"
mv "$W/b.ll" "$OUT"
rm -rf "$W"
find "$T/sym" -name '*verif_sym*.bc' -delete 2>/dev/null || true
