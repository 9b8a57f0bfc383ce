#!/bin/bash
# Builds the program beside this script against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here"/*.rs "$t/src/" && cp "$here/Cargo.lock" "$t/" || exit 3
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ntfs = { path = "$repo", features = ["time"] }
time = { version = "0.3.9", features = ["large-dates", "macros"] }
[profile.dev]
debug = 0
incremental = false
EOF
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
cd "$t" && cargo build -q --offline || exit 3
timeout 120 "$t/target/debug/demo"
