#!/bin/bash
# check.sh <property id> [engine options]: build the check of one property from
# /repo's working tree and run it.  Exit 0 / 1 + VIOLATION; anything else is an
# error of the check (build failure: 3).
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER=
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
id="$1"; shift
mkdir -p target
bin=$(echo "$id" | tr 'A-Z' 'a-z')
case "$id" in
    C12) dir=grind ;;
    *) dir=harness ;;
esac
profile=release
[ "$id" = C25 ] && profile=checked
cargo build --profile $profile --offline --locked --quiet --manifest-path "$dir/Cargo.toml" --bin "$bin" >"target/build-$bin.log" 2>&1 || {
    mkdir -p target; tail -60 "target/build-$bin.log" >&2; echo "check $id: build failed" >&2; exit 3; }
if [ "$id" = C11 ]; then
    # the same program built with the parallel prover answers over a pipe
    cargo build --release --offline --locked --quiet --manifest-path harness/Cargo.toml --features parallel --target-dir target/parallel --bin c11 >"target/build-$bin.log" 2>&1 || {
        tail -60 "target/build-$bin.log" >&2; echo "check $id: parallel build failed" >&2; exit 3; }
    export C11_WORKER="$PWD/target/parallel/release/c11"
fi
if [ "$id" = C22 ]; then
    cargo build --release --offline --locked --quiet --manifest-path harness/Cargo.toml --bin cli >"target/build-$bin.log" 2>&1 || {
        tail -60 "target/build-$bin.log" >&2; echo "check $id: the tool does not build" >&2; exit 3; }
    export C22_CLI="$PWD/target/release/cli"
fi
if [ "$id" = C21 ]; then
    # the runner prints every failure of the virtual machine
    "target/release/$bin" "$@" 2>"target/$bin.err"; rc=$?
    [ $rc -le 1 ] || tail -40 "target/$bin.err" >&2
    exit $rc
fi
exec "target/$profile/$bin" "$@"
