#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_BUILD_TARGET_DIR RUSTFLAGS
mkdir "$T/src" && cp "$HERE/main.rs" "$T/src/main.rs" && cp "$REPO/Cargo.lock" "$T/Cargo.lock" || exit 3
cat > "$T/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
masstree = { path = "$REPO" }
seize = "0.5.1"
[profile.release]
debug-assertions = false
C
cd "$T" && CARGO_TARGET_DIR=$T/target cargo build --release --offline >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 200 "$T/target/release/demo"
