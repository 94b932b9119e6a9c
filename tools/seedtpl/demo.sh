#!/bin/bash
# Builds main.rs against the crate in /repo in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && cp /repo/Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<'C'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cathlamet = { path = "/repo" }
[profile.dev]
debug = false
[workspace]
C
cd "$T" && RUSTFLAGS="--cfg cathlamet_verif -Awarnings" cargo build --offline -q || exit 2
timeout 120 "$T/target/debug/demo"
