#!/bin/bash
# Applies each planted change to /repo, runs its property's quick check, undoes it: try_seeded.sh [ID ...]
# Appends one line per change to tools/seeded_results.txt (id, property, exit code, seconds, first signature).
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh "$p" quick > /tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  line=$(printf '%s\t%s\texit=%s\t%ss\t%s' "$id" "$p" "$rc" "$(( $(date +%s) - s ))" "$(grep -m1 -o 'VIOLATION property=[^ ]*' /tmp/try_$id.log) $(grep -m1 -i 'sig' /tmp/try_$id.log | cut -c1-160)")
  echo "$line"
  [ -n "$RECORD" ] && { grep -v "^$id	" tools/seeded_results.txt > /tmp/sr.txt 2>/dev/null; echo "$line" >> /tmp/sr.txt; sort /tmp/sr.txt > tools/seeded_results.txt; }
done
