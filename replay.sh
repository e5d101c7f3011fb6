#!/bin/bash
# Replays one recorded schedule and fault trace against /repo's working tree: exit 1 if it still
# violates the property it was recorded for.
# usage: replay.sh FILE
file=$(readlink -f "$1")
cd "$(dirname "$0")/harness" || exit 2
RUSTFLAGS="--cfg findex_sim" cargo build --release --offline 2>/dev/null || { echo "cannot build" >&2; exit 2; }
exec ./target/release/findex-sim replay "$file"
