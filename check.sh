#!/bin/bash
# usage: check.sh <property id> [--replay FILE | --test NAME]
# Rebuilds the code under test and the check of one property from /repo's current
# working tree, then runs it. Exit 0: held; 1: VIOLATION line; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
ID=$1; shift
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_OPT_LEVEL=1
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
HT=$ROOT/target/harness
RT=$ROOT/target/repo
LOG=$(mktemp /tmp/gcv-build.XXXXXX)
trap 'rm -f "$LOG"' EXIT
# Builds are decided by file times, which a checkout can set back: the two crates
# under test are always rebuilt.
touch_clean() { # target dir, manifest
  cargo clean --offline --manifest-path "$2" --target-dir "$1" -p gc-core -p gc-command >>"$LOG" 2>&1
}
build() {
  ( flock 9
    touch_clean "$HT" harness/Cargo.toml
    cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir "$HT" --bin "$BIN" >>"$LOG" 2>&1 || exit 1
    if grep -q '"gc-' "harness/src/bin/$BIN.rs"; then
      touch_clean "$RT" /repo/Cargo.toml
      cargo build --offline --locked --manifest-path /repo/Cargo.toml --target-dir "$RT" -p gc-command --bins >>"$LOG" 2>&1 || exit 1
    fi
    if grep -q 'shim(' "harness/src/bin/$BIN.rs"; then
      gcc -O1 -shared -fPIC -o "$ROOT/target/shim.so" shim/shim.c -ldl >>"$LOG" 2>&1 || exit 1
    fi
  ) 9>"$ROOT/target/.lock"
}
mkdir -p "$ROOT/target"
if ! build; then
  echo "INCONCLUSIVE: build failed"
  tail -40 "$LOG"
  exit 2
fi
export GCV_BIN=$RT/debug GCV_SHIM=$ROOT/target/shim.so
"$HT/debug/$BIN" "$@"
rc=$?
[ $rc -le 1 ] || { echo "INCONCLUSIVE: check ended with status $rc"; exit 2; }
exit $rc
