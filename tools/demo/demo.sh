#!/bin/bash
# run with cwd /repo: builds main.rs against the crate in the working directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D"/*.rs "$T/src/"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rqrr = { path = "$R", default-features = false }
[workspace]
E
cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T"
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build --offline -q 2>"$T/log" || { cat "$T/log" >&2; exit 0; }
timeout 200 "$T/target/debug/demo"
