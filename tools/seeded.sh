#!/bin/bash
# seeded.sh [ID...]   applies each planted change to /repo, runs its property's quick check, undoes it
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean" >&2; exit 2; }
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
missed=0
for id in "$@"; do
  d="$V/seeded/$id"
  prop="$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")"
  git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  t=$SECONDS
  out="$("$V/check.sh" "$prop" "${TIER:-quick}" 2>&1)"
  rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then r=caught; else r="MISSED rc=$rc"; missed=1; fi
  echo "$id $prop $r $((SECONDS - t))s $(grep -m1 -A1 '^VIOLATION' <<<"$out" | tail -1 | cut -c1-150)"
done
exit $missed
