#!/bin/bash
# As try_seeded.sh, without touching /repo: in scratch copies of /repo and of the harness, W at a time (W=2).
#   [RECORD=1] [W=2] bash tools/try_scratch.sh ID[:PROPERTY[,PROPERTY...]] ...     (default: the property of meta.json)
# PATCH=FILE with an ID of your choosing applies that file instead of seeded/ID/patch.diff.
cd /verif || exit 2
W=${W:-2}
Q=$(mktemp -d /tmp/tryq.XXXX)
printf '%s\n' "$@" > "$Q/todo"
prepare() {
  d=$Q/w$1
  mkdir -p "$d"
  git clone -q /repo "$d/repo"
  mkdir "$d/verif"
  cp -a check.sh miri.sh known_findings.txt harness "$d/verif/"
  rm -rf "$d/verif/harness/target/miri"
  sed -i "s#/verif#$d/verif#g; s#/repo#$d/repo#g" "$d/verif/check.sh" "$d/verif/miri.sh" "$d/verif/harness/Cargo.toml" "$d/verif/harness/src/props/purep.rs"
}
next() { flock "$Q/lock" bash -c "head -1 $Q/todo; sed -i 1d $Q/todo"; }
work() {
  prepare "$1"
  while t=$(next); [ -n "$t" ]; do
    id=${t%%:*}
    ps=""; [[ $t == *:* ]] && ps=${t#*:}
    [ -z "$ps" ] && ps=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C "$d/repo" checkout -q -- .
    git -C "$d/repo" apply "${PATCH:-/verif/seeded/$id/patch.diff}" || { echo "$id: does not apply"; continue; }
    for p in ${ps//,/ }; do
      s=$(date +%s)
      (cd "$d/verif" && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick LAWMON_JOBS=$((8 / W)) bash check.sh "$p" quick) > "/tmp/try_$id.$p.log" 2>&1; rc=$?
      line=$(printf '%s\t%s\texit=%s\t%ss\t%s' "$id" "$p" "$rc" "$(( $(date +%s) - s ))" "$(grep -m1 -o 'VIOLATION property=[^ ]*' "/tmp/try_$id.$p.log") $(grep -m1 -i 'sig' "/tmp/try_$id.$p.log" | cut -c1-160)")
      echo "$line"
      [ -n "$RECORD" ] && flock "$Q/rec" bash -c 'grep -v "^$0	" tools/seeded_results.txt > '"$Q"'/sr; printf "%s\n" "$1" >> '"$Q"'/sr; sort '"$Q"'/sr > tools/seeded_results.txt' "$id" "$line"
    done
  done
}
for i in $(seq "$W"); do work "$i" & done
wait
rm -rf "$Q"
