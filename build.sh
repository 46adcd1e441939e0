#!/bin/bash
# Builds the monitors against /repo's current working tree, offline.
# usage: build.sh [release|asan|tsan|work]
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
mode=${1:-release}
mkdir -p "$root/.build"
exec 9>"$root/.build/lock-$mode"
flock 9
export CARGO_TARGET_DIR="$root/.build/target-$mode"
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
unset RUSTFLAGS
# decide by content, not by time stamps, whether the crate has changed
hash=$( (cd /repo && cat Cargo.toml && find src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done) | sha256sum | cut -d' ' -f1)
old=$(cat "$root/.build/hash-$mode" 2>/dev/null)
cd "$root/harness" || exit 2
case $mode in
  release) args=(cargo build --release --offline) ;;
  asan)
    export RUSTFLAGS="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"
    args=(cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu) ;;
  tsan)
    # the standard library must be instrumented too, or its locks go unseen
    export RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
    args=(cargo +nightly build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu) ;;
  work)
    export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
    args=(cargo build --release --offline --target x86_64-unknown-linux-gnu --features work) ;;
esac
if [ "$hash" != "$old" ] && [ -d "$CARGO_TARGET_DIR" ]; then
  cargo clean --offline -p dockerfile-parser --release >/dev/null 2>&1
  [ "$mode" != release ] && cargo +nightly clean --offline -p dockerfile-parser --release --target x86_64-unknown-linux-gnu >/dev/null 2>&1
fi
log="$root/.build/log-$mode"
if ! "${args[@]}" >"$log" 2>&1; then
  tail -40 "$log"
  echo "error: the monitors could not be built"
  exit 2
fi
echo "$hash" >"$root/.build/hash-$mode"
exit 0
