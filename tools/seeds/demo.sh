#!/bin/bash
# Run with cwd = the repository: exit 0 if the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here"/*.rs "$tmp/src/" && cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cosmian_findex = { path = "$repo", features = ["in_memory"] }
cosmian_crypto_core = { version = "9.3.0", default-features = false, features = ["aes", "sha3", "ser"] }
async-trait = "0.1.74"
T
# Some need small batches.
grep -q 'cosmian_findex::sim' "$tmp/src/main.rs" && export RUSTFLAGS="--cfg findex_sim"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout -k 5 250 cargo build --offline > build.log 2>&1 || { tail -40 build.log; exit 3; }
timeout -k 5 40 ./target/debug/demo
