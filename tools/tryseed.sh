#!/bin/bash
# tryseed.sh ID WORKER CHECK...: run checks against a planted bug in scratch copies. Development only.
root=$(cd "$(dirname "$0")/.." && pwd)
id="$1"; k="$2"; shift 2
w="/tmp/plant/t$k"; mkdir -p "$w/verif"
rm -rf "$w/repo"; mkdir -p "$w/repo"; git -C /repo archive HEAD | tar x -C "$w/repo"
[ "$id" = none ] || (cd "$w/repo" && git init -q && git apply "$root/seeded/$id/patch.diff") || exit 9
for f in check.sh engine grind harness shims known-findings.txt replays; do rm -rf "$w/verif/$f"; cp -r "$root/$f" "$w/verif/$f"; done
mkdir -p "$w/verif/evidence"
grep -rlE '/repo' "$w/verif"/{engine,grind,harness,check.sh} | xargs sed -i "s#\([\"' =]\)/repo#\1$w/repo#g"
for c in "$@"; do
  s=$(date +%s)
  bash "$w/verif/check.sh" "$c" >"$w/$id.$c.out" 2>"$w/$id.$c.err"; rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$w/$id.$c.out") $( [ $rc -gt 1 ] && tail -3 "$w/$id.$c.err")"
  tail -4 "$w/$id.$c.out" | grep -v VIOLATION | cut -c1-300
done
