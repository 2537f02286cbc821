#!/bin/bash
# Builds the monitored programs once; checks rebuild from /repo's tree anyway.
set -e
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
cd "$ROOT/harness"
cargo build --offline --profile checked
cargo build --offline --release
for s in asan tsan; do
  kind=thread; [ "$s" = asan ] && kind=address
  env RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$ROOT/rustc-wrap.sh" \
    RUSTFLAGS="-Zsanitizer=$kind -C target-cpu=x86-64-v2" CARGO_TARGET_DIR="$ROOT/harness/target/$s" \
    cargo build --offline --release -Zbuild-std --target x86_64-unknown-linux-gnu
done
