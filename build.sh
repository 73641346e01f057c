#!/bin/bash
# builds the monitors together with /repo's working tree; $1: plain (default), asan or miri
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true OPENSSL_NO_VENDOR=1
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MIRIFLAGS
cd "$V/harness" || exit 2
case "${1:-plain}" in
plain)
  export RUSTFLAGS="--cfg quic_sea_verif" CARGO_TARGET_DIR="$V/target"
  exec cargo build --offline --release --quiet ;;
asan)
  export RUSTFLAGS="--cfg quic_sea_verif --cfg qmon_asan -Zsanitizer=address -Cforce-frame-pointers=yes" CARGO_TARGET_DIR="$V/target-asan"
  exec cargo +nightly build --offline --release --quiet --target x86_64-unknown-linux-gnu ;;
miri)
  # builds and starts it; interprets nothing
  export RUSTFLAGS="--cfg quic_sea_verif" CARGO_TARGET_DIR="$V/target-miri" MIRIFLAGS="-Zmiri-disable-isolation"
  exec cargo +nightly miri run --offline --quiet -- interpret 1 0 1 0 ;;
esac
