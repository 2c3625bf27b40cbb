#!/bin/bash
# matrix.sh [-a] [BUG...]: applies each planted bug to /repo, builds once, runs the check of its property (with -a:
# of every property), undoes the patch. Prints one line per bug. For development; no check uses it.
ROOT=$(cd "$(dirname "$0")/.." && pwd)
export PV_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
ALL=; [ "$1" = -a ] && { ALL=1; shift; }
[ $# = 0 ] && set -- $(ls "$ROOT/seeded")
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$ROOT/seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$ROOT/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  line="$b ($p):"
  if bash "$ROOT/build.sh" >/dev/null 2>&1; then
    ids=$p; [ -n "$ALL" ] && ids="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19"
    for i in $ids; do
      timeout 400 "$ROOT/target/release/pv" check $i >"$ROOT/target/matrix.log" 2>&1; rc=$?
      [ $rc = 1 ] && line="$line $i"
      [ $rc -gt 1 ] && line="$line $i(rc$rc)"
      [ -z "$ALL" ] && line="$line | $(grep -E '^reason' "$ROOT/target/matrix.log" | cut -c1-200)"
    done
  else line="$line DOES NOT BUILD"; fi
  git -C /repo checkout -q -- .
  echo "$line"
done
