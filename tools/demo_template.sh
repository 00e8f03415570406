#!/bin/bash
# Runs main.rs against the crates in the current directory (/repo); exit 0 iff it succeeds.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ssbh_lib = { path = "$REPO/ssbh_lib" }
ssbh_data = { path = "$REPO/ssbh_data" }
ssbh_write = { path = "$REPO/ssbh_write" }
binrw = "0.14.0"
[profile.dev]
debug = 0
[workspace]
T
cd "$D" && CARGO_TARGET_DIR="$D/target" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline -q 2>&1 | tail -n 20
exit ${PIPESTATUS[0]}
