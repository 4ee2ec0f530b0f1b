#!/bin/bash
# plant.sh SRC ID [WORKER]: assemble the planted bug ID from SRC (main.rs, edit.py, meta.json,
# optional conf with DEBUG=, FEATURES=, BINS=) into seeded/ID after confirming it in a scratch copy of /repo.
# Development only; no check uses it.
root=$(cd "$(dirname "$0")/.." && pwd)
src=$(realpath "$1"); id="$2"; k="${3:-0}"
w="/tmp/plant/w$k"; mkdir -p "$w"
DEBUG=false FEATURES= BINS=
[ -f "$src/conf" ] && . "$src/conf"
d="$w/stage"; rm -rf "$d"; mkdir -p "$d"
cp -r "$root/shims" "$d/shims"
cp "$src"/*.rs "$d"/
[ -d "$src/files" ] && cp -r "$src/files/." "$d"/
cp "$root/tools/demo/toy.rs" "$d/toy.rs"
grep -q 'mod toy' "$d/main.rs" || rm "$d/toy.rs"
sed "s#@BINS@#$BINS#; s#@DEBUG@#$DEBUG#" "$root/tools/demo/Cargo.toml.in" >"$d/Cargo.toml.in"
sed "s#@FEATURES@#$FEATURES#" "$root/tools/demo/demo.sh" >"$d/demo.sh"
cp "$root/tools/demo/Cargo.lock.in" "$d/"
rm -rf "$w/repo"; mkdir -p "$w/repo"
git -C /repo archive HEAD | tar x -C "$w/repo"
git -C "$w/repo" init -q; git -C "$w/repo" add -A -f; git -C "$w/repo" -c user.name=x -c user.email=x@x commit -qm base
export DEMO_TARGET="$w/target"
(cd "$w/repo" && bash "$d/demo.sh") >"$w/clean.out" 2>&1; rc=$?
[ $rc = 0 ] || { echo "$id: demo fails on the clean tree ($rc)"; tail -30 "$w/clean.out"; exit 1; }
(cd "$w/repo" && python3 "$src/edit.py") || { echo "$id: edit failed"; exit 1; }
git -C "$w/repo" diff >"$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
(cd "$w/repo" && bash "$d/demo.sh") >"$w/bug.out" 2>&1; rc=$?
case $rc in 0) echo "$id: demo passes with the bug"; cat "$w/bug.out"; exit 1;; 8|9) echo "$id: build error"; tail -40 "$w/bug.out"; exit 1;; esac
cp "$src/meta.json" "$d/"
git -C /repo apply --check "$d/patch.diff" || exit 1
rm -rf "$root/seeded/$id"; cp -r "$d" "$root/seeded/$id"
echo "$id: planted (demo exit $rc): $(grep -m1 -A1 panicked "$w/bug.out" | tail -1 | cut -c1-200)"
