#!/bin/bash
# Builds the harness against /repo's current working tree, with edge counters in all code.
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
mkdir -p target
T=x86_64-unknown-linux-gnu
exec 9>target/.lock
flock 9
gcc -O2 -fno-builtin -c c/fuel.c -o target/fuel.o
# cargo goes by time stamps: make sure that a change of content is seen
now=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
if [ "$(cat target/.repo 2>/dev/null)" != "$now" ]; then
    cargo clean --offline --release --target $T -p mvdparser --target-dir "$here/harness/target" >/dev/null 2>&1 || true
    rm -f "$here/harness/target/.repo"
fi
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Clink-arg=$here/harness/target/fuel.o"
unset CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET || true
if ! cargo build --release --offline --target $T --target-dir "$here/harness/target" >target/build.log 2>&1; then
    grep -E -A12 "^error" target/build.log | cut -c1-400 | tail -60
    exit 2
fi
echo "$now" >target/.repo
