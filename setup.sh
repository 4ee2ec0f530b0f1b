#!/bin/bash
# Builds every check from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER=
mkdir -p target evidence replays
cargo build --release --offline --locked --manifest-path grind/Cargo.toml || exit 1
cargo build --release --offline --locked --manifest-path harness/Cargo.toml || exit 1
cargo build --profile checked --offline --locked --manifest-path harness/Cargo.toml --bin c25 || exit 1
