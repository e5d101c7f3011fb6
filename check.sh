#!/bin/bash
# Builds the simulator against /repo's working tree (hooks on) and decides one property.
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")/harness" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp)
if ! RUSTFLAGS="--cfg findex_sim" cargo build --release --offline >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "cannot build the simulator against /repo" >&2
    exit 2
fi
rm -f "$log"
exec ./target/release/findex-sim check "$1" "$tier"
