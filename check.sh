#!/bin/bash
# check.sh <ID> [quick|thorough]   decides one property on /repo's current working tree
# check.sh replay <replays/file>   runs the recorded violating case again
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export QMON_VERIF="$V"
W="$V/work"
mkdir -p "$W"
ASAN_EXE="$V/target-asan/x86_64-unknown-linux-gnu/release/qmon"

build() { # a build that fails twice gives no verdict
  local log="$W/build-$1.$$.log"
  if "$V/build.sh" "$1" >"$log" 2>&1 || "$V/build.sh" "$1" >"$log" 2>&1; then
    rm -f "$log"
    return 0
  fi
  cat "$log" >&2
  rm -f "$log"
  echo "the monitors ($1) do not build with /repo's tree" >&2
  return 1
}

instrumented() {
  export ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:max_malloc_fill_size=1048576:malloc_fill_byte=181:allocator_may_return_null=1:log_path=$W/asan.$$"
}

if [ "${1:-}" = replay ]; then
  read -r id tier seed idx kind < <(python3 -c "
import json,sys
d=json.load(open(sys.argv[1])); print(d['property'],d['tier'],d['seed'],d['case'],d['kind'])" "$2") || exit 2
  if [ "$kind" = interpreted ]; then
    cd "$V/harness" || exit 2
    CARGO_NET_OFFLINE=true OPENSSL_NO_VENDOR=1 RUSTFLAGS="--cfg quic_sea_verif" CARGO_TARGET_DIR="$V/target-miri" MIRIFLAGS="-Zmiri-disable-isolation" \
      cargo +nightly miri run --offline --quiet -- interpret "$seed" "$idx" 1 $((idx + 1))
    exit $?
  fi
  if [ "$id" = C18 ]; then
    build asan || exit 2
    export ASAN_OPTIONS="exitcode=99:detect_leaks=0"
    exec "$ASAN_EXE" one "$id" "$tier" "$seed" "$idx"
  fi
  build plain || exit 2
  exec "$V/target/release/qmon" one "$id" "$tier" "$seed" "$idx"
fi

ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
if [ "$ID" = C18 ]; then
  build asan || exit 2
  if build miri 2>/dev/null; then
    export QMON_MIRI="$V/target-miri"
  else
    echo "note: the interpreter (Miri) does not start here; AddressSanitizer decides alone"
  fi
  instrumented
  "$ASAN_EXE" check "$ID" "$TIER" "$SEED"
  rc=$?
  rm -f "$W/asan.$$".*
  exit $rc
fi
build plain || exit 2
exec "$V/target/release/qmon" check "$ID" "$TIER" "$SEED"
