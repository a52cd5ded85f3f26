#!/bin/bash
# Renders documents with the library, built for vello, in the current directory and compares what is drawn.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$here/case.json" "$work/src/"
cp "$here/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
velato = { path = "$repo", default-features = false, features = ["vello"] }
serde_json = "1.0.149"
T
cd "$work"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet 2>&1
ulimit -v 8000000
timeout 60 "$work/target/debug/demo"
