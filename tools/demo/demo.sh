#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds on the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cp -r "$here"/shims "$here"/*.rs "$work"/
cp "$here/Cargo.lock.in" "$work/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" >"$work/Cargo.toml"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUST_BACKTRACE=0 SCRATCH="$work"
cargo build --release --offline --locked --quiet --manifest-path "$work/Cargo.toml" @FEATURES@ >"$work/log" 2>&1 || { cat "$work/log" >&2; exit 8; }
export BIN_DIR="$CARGO_TARGET_DIR/release"
timeout 120 "$BIN_DIR/demo"
