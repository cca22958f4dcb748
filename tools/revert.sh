#!/bin/sh
# undo each "fix:" commit of /repo on a scratch copy and run the checks: each defect must be reported again
D=${1:-/tmp/rev}; HERE=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D"
grep '^fixed:' "$HERE/known_findings.txt" | while read -r _ p c _; do
  id=${p#property=}; d="$D/$id-$c"; mkdir -p "$d"
  git -C /repo diff "$c" "$c~1" > "$d/patch.diff"
  echo "{\"property\":\"$id\"}" > "$d/meta.json"
  git -C /repo apply --check "$d/patch.diff" 2>/dev/null || { echo "does not apply on its own: $id $c"; mv "$d" "$D.skip-$c"; }
done
MUT_WORK=${MUT_WORK:-/tmp/m} python3 "$HERE/tools/mut.py" "$D" -j 6
