#!/bin/bash
# run in /repo: builds a small program against the crate in the current directory and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d)
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$D/common.rs" "$W/src/"
[ -f Cargo.lock ] && cp Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sieve-rs = { path = "$PWD" }
[profile.dev]
debug = 0
incremental = false
T
cd "$W"
RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true cargo build --offline --quiet --target-dir "$W/target" || exit 3
timeout 120 "$W/target/debug/demo"
