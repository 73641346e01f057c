#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
# exit 0: the guarantee holds; anything else: it does not
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d)" || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
quic-sea = { path = "$repo" }
ring = "0.16"
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" RUSTFLAGS="--cfg quic_sea_verif -Awarnings"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$dir/target" OPENSSL_NO_VENDOR=1
(cd "$dir" && cargo build --offline --quiet) >"$dir/log" 2>&1 || { cat "$dir/log"; exit 4; }
timeout 120 "$dir/target/debug/demo"
