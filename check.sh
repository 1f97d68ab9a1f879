#!/bin/bash
# check.sh <property> <quick|thorough>
# Builds the harness against /repo's working tree, runs the monitors of one property and writes
# evidence/<property>.json. Exit 0: held; 1: VIOLATION line; anything else: no answer.
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 2
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
EV=$ROOT/evidence
mkdir -p "$EV/replay"
rm -f "$EV/$ID.json"
LOG=$EV/$ID.build.log

case $ID in
    C13) FEAT=serial ;;
    C16 | C17 | C18 | C26) FEAT=usbdev ;;
    C22) FEAT=nusb ;;
    C29) FEAT=nusb,usbdev ;;
    C23) FEAT=serial ;;
    C24) FEAT=webusb; export RUSTFLAGS=--cfg=vp_native_webusb ;;
    *) FEAT= ;;
esac

case $TIER in
    quick) BUDGET=10 ;;
    *) BUDGET=300 ;;
esac

[ -x "checks/$ID.sh" ] && exec "checks/$ID.sh" "$TIER"

. "$ROOT/lib.sh"
build_harness "$FEAT" || build_failed
run_pmon "$ID" --tier "$TIER" --budget "$BUDGET" || exit $?
# several threads: scenario, native rounds, Miri schedules, Miri preemption rate
case $ID in
    C04) mt_stage "calls 1500 40 0.05" "calls 0 24 0.005" ;;
    C05) mt_stage "server 1500 32 0.03" ;;
    C08) mt_stage "close 1500 64 0.05" "closesub 30000 192 0.003" ;;
    C09 | C10) mt_stage "subs 5000 64 0.05" "subs 0 64 0.005" ;;
    C11) mt_stage "publish 1500 48 0.03" "server 500 24 0.03" ;;
    C18) mt_stage "logs 20000 48 0.05" ;;
    C12 | C21) mt_stage "calls 1500 32 0.02" ;;
esac
exit 0
