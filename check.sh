#!/bin/bash
# check.sh <property> | replay <file> | conform <depth> [base] | build
# Rebuilds the harness from /repo's working tree and runs one check.
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
log=$(mktemp)
build() { (cd "$root/mc" && cargo build --release --offline --locked "$@") >>"$log" 2>&1; }
mc=$root/mc/target/release/mc
# C30 is about krates with its feature `targets`, built on its own
feature=
case "$1" in
    C30) feature=1 ;;
    replay) grep -q '"property": *"C30"' "$2" && feature=1 ;;
esac
if [ -n "$feature" ]; then
    mc=$root/mc/target/with-targets/release/mc
    build --features targets --target-dir "$root/mc/target/with-targets"
else
    build
fi
if [ $? -ne 0 ]; then
    cat "$log" >&2
    rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay | conform) exec "$mc" "$@" ;;
    *) exec "$mc" check "$1" ;;
esac
