#!/bin/bash
# Builds and runs main.rs against the crate in /repo, inside a scratch directory. Exit 0: the property held.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch"
cp "$d"/*.rs "$w/src/"
cp /repo/Cargo.lock "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
rusty-git = { path = "/repo" }
flate2 = "1"
[workspace]
T
cd "$w" || exit 1
CARGO_TARGET_DIR="${DEMO_TARGET:-$w/target}" cargo build --offline -q 2>"$w/log" || { tail -20 "$w/log"; exit 1; }
DEMO_DIR="$w/scratch" timeout 60 "${DEMO_TARGET:-$w/target}/debug/demo"
