#!/bin/sh
# Builds the harness once, so that build problems show up before the checks run. The checks do not depend on it.
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR="$PWD/harness/target" RUSTFLAGS=-Awarnings cargo build --offline --locked -q --manifest-path harness/Cargo.toml
