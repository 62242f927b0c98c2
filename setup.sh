#!/bin/sh
# builds the harness once; every check builds it again against /repo as it is then
set -e
cd "$(dirname "$0")/harness"
cargo build --offline --quiet --target-dir ../build/target
cargo build --offline --quiet --release --target-dir ../build/target
RUSTFLAGS='--cfg vp_hooks' cargo build --offline --quiet --target-dir ../build/target-hooks || true
java -version >/dev/null 2>&1
