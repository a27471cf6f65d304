#!/bin/bash
# Builds the symbolic executor and warms the build caches; every check also builds what it lacks.
set -e
D=$(cd "$(dirname "$0")" && pwd)
V=$(cd "$D/.." && pwd)
mkdir -p "$V/work"
bash "$D/build_engine.sh"
bash "$D/build_replay.sh" c01
bash "$D/build_ll.sh" "$V/work/setup.ll" c01
rm -f "$V/work/setup.ll"
