#!/bin/bash
# Re-runs a recorded counterexample against the real code:  replay.sh evidence/C01.violation.json
V=$(cd "$(dirname "$0")/.." && pwd)
read -r H A I < <(python3 -c "
import json,sys; v=json.load(open(sys.argv[1])); print(v['harness'], ','.join(map(str,v['args'])) or '-', ','.join(v['inputs']) or '-')" "$1")
bash "$V/tools/build_replay.sh" "${H%%_*}" || exit 2
exec "${VERIF_TARGET:-$V/target}/replay/debug/replay" "$H" "${A#-}" "${I#-}"
