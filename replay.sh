#!/bin/bash
# replay.sh FILE: rebuilds from /repo's working tree and runs one recorded case again. When the case alone holds (it
# needed what the run had done before, or an interleaving), the run it came from is repeated with its seed.
ROOT=$(cd "$(dirname "$0")" && pwd)
export PV_ROOT=$ROOT RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
bash "$ROOT/build.sh" >"$ROOT/target/build-replay.log" 2>&1 || { tail -20 "$ROOT/target/build-replay.log"; exit 2; }
cp "$1" "$ROOT/target/replay-case.json" || exit 2
"$ROOT/target/release/pv" replay "$ROOT/target/replay-case.json"; rc=$?
[ $rc = 0 ] || exit $rc
echo "The case alone holds; repeating the run it came from."
set -- $(python3 -c "
import json; v = json.load(open('$ROOT/target/replay-case.json'))
print(v['property'], 'thorough' if v.get('thorough') else 'quick', v.get('seed', 1))")
VERIF_SEED=$3 VERIF_TIER=$2 exec "$ROOT/target/release/pv" check "$1"
