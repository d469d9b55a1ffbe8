#!/bin/bash
# check.sh ID [--tier quick|thorough] [--replay FILE]
# Builds the harness against /repo's current working tree and decides one property.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
log="$PWD/target/build-$$.log"
mkdir -p target
if ! (cd harness && cargo build --release --offline) >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "$PWD/target/release/bcverif" "$@"
