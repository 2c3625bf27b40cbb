#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current working tree.
# Exit 0 held, 1 violated (with a VIOLATION line), anything else: the check could not answer.
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1} PV_ROOT=$ROOT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir -p "$ROOT/target" "$ROOT/evidence" "$ROOT/replays"
exec 9>"$ROOT/target/.lock"
flock 9
rm -f "$ROOT/evidence/$ID.json"
if ! bash "$ROOT/build.sh" >"$ROOT/target/build-$ID.log" 2>&1; then
  echo "ERROR: /repo or the harness does not build:"; grep -E '^error' -A6 "$ROOT/target/build-$ID.log" | head -40
  exit 2
fi
PV=$ROOT/target/release/pv
LAST=$ROOT/replays/$ID.last.json
LIMIT=400; [ "$VERIF_TIER" = thorough ] && LIMIT=7200
ulimit -v 25000000 -c 0
rm -f "$LAST"
timeout -k 5 $LIMIT "$PV" check "$ID" 9>&-
rc=$?
case $rc in
  0|1) exit $rc ;;
  # killed by a signal (crash, out of memory) or by the time limit: find the case that does it
  134|136|137|139|124) ;;
  *) exit $rc ;;
esac
echo "the run ended with status $rc; looking for the case that did it" >&2
PV_TRACE=1 timeout -k 5 $LIMIT "$PV" check "$ID" 9>&- >"$ROOT/target/trace-$ID.log" 2>&1
rc2=$?
case $rc2 in
  0) echo "ERROR: the run ended with status $rc and could not be reproduced"; exit 3 ;;
  1) cat "$ROOT/target/trace-$ID.log"; exit 1 ;;
  134|136|139) ;;
  124|137)
    # a hang is a finding only if one single case was stuck for a minute
    [ -f "$LAST" ] && [ $(( $(date +%s) - $(stat -c %Y "$LAST") )) -ge 60 ] || { echo "ERROR: time limit"; exit 3; } ;;
  *) exit $rc2 ;;
esac
[ -f "$LAST" ] || { echo "ERROR: the run ended with status $rc2"; exit 3; }
cat "$LAST"; echo
python3 - "$ID" "$VERIF_TIER" "$VERIF_SEED" "$LAST" "$ROOT/evidence/$ID.json" <<'PY'
import json, sys
i, tier, seed, last, out = sys.argv[1:]
c = json.load(open(last))
json.dump({"property": i, "tier": tier, "seed": int(seed), "level": "exploration", "wall_s": 0, "violations": 1,
  "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was ended by a signal or never returned in this case", "samples": [c]}},
  open(out, "w"), indent=1)
PY
echo "VIOLATION property=$ID replay=$LAST"
exit 1
