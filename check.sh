#!/bin/bash
# check.sh ID [--tier quick|thorough] [--only 'section#ix']
# Rebuilds the monitored programs from /repo's current working tree and runs
# the monitors of one property. Exit 0: held on everything observed; 1:
# violation (VIOLATION line); anything else: the check itself could not run.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
ID="$1"; shift
TIER="${VERIF_TIER:-quick}"
ARGS=()
while [ $# -gt 0 ]; do
  case "$1" in
    --tier) TIER="$2"; shift 2 ;;
    *) ARGS+=("$1"); shift ;;
  esac
done
mkdir -p "$ROOT/work" "$ROOT/evidence" "$ROOT/replays"
rm -f "$ROOT/evidence/$ID.json"

build() { # name, command...
  local log="$ROOT/work/build-$1.log"; shift
  if ! ( cd "$ROOT/harness" && "$@" ) >"$log" 2>&1; then
    echo "build failed, see $log" >&2
    grep -E '^error' -A12 "$log" | head -60 >&2
    exit 2
  fi
}

T="$ROOT/harness/target"
STAGES=""
want=$("$ROOT/stages.sh" "$ID" "$TIER")
for s in $want; do
  case "$s" in
    checked) build checked cargo build --offline --profile checked; b="$T/checked/ozmon" ;;
    release) build release cargo build --offline --release; b="$T/release/ozmon" ;;
    tsan|asan)
      kind=thread; [ "$s" = asan ] && kind=address
      build $s env RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$ROOT/rustc-wrap.sh" \
        RUSTFLAGS="-Zsanitizer=$kind -C target-cpu=x86-64-v2" CARGO_TARGET_DIR="$T/$s" \
        cargo build --offline --release -Zbuild-std --target x86_64-unknown-linux-gnu
      b="$T/$s/x86_64-unknown-linux-gnu/release/ozmon" ;;
  esac
  STAGES="$STAGES,$s=$b"
done
first="${STAGES#,}"; first="${first%%,*}"; first="${first#*=}"
exec "$first" run "$ID" --root "$ROOT" --tier "$TIER" --stages "${STAGES#,}" ${ARGS[@]+"${ARGS[@]}"}
