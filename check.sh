#!/bin/bash
# check.sh <property> [quick|thorough]: exit 0 held, 1 violated (VIOLATION line), anything else: no verdict
cd "$(dirname "$0")" || exit 2
. ./lib.sh
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
PROF=dev; OUT=debug; [ "$TIER" = thorough ] && PROF=deep && OUT=deep
BIN=target/$OUT/tw
# the builds run side by side
w32() { build_w32 & }
w32_done() { wait $! || export TW_NO_W32=1; }
case $ID in
  C23) build target-nogd --no-default-features --profile $PROF --bin tw || exit 2; BIN=target-nogd/$OUT/tw ;;
  C21) build_asan || exit 2; build_miri || exit 2; build target --profile $PROF --bin tw || exit 2
    rm -rf "$ROOT/out/miri"; mkdir -p "$ROOT/out/miri"; "$ROOT/harness/$BIN" gencases C21 "$TIER" "$SEED" "$ROOT/out/miri" || exit 2 ;;
  C17) build_tsan || exit 2; build target --profile $PROF --bin tw || exit 2 ;;
  C22) build_cli || exit 2; build target --profile $PROF --bin tw || exit 2 ;;
  C09|C16) build target --profile $PROF --bin tw || exit 2 ;;
  *) w32
    [ $ID = C04 ] && { build_asan || exit 2; }
    build target --profile $PROF --bin tw || exit 2
    w32_done
    case $ID in C03|C04) build_bare || export TW_NO_BARE=1 ;; esac ;;
esac
exec "$ROOT/harness/$BIN" check "$ID" "$TIER" "$SEED" "$ROOT"
