#!/bin/bash
# Run with cwd = the repository. Builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[dependencies]
dockerfile-parser = { path = "$repo" }

[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
ulimit -c 0
timeout 60 "$tmp/target/debug/demo"
