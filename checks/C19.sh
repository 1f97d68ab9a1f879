#!/bin/bash
# C19: builds the device-side probe (library without use-std) for this machine, interprets it for a
# 32-bit and a big-endian machine, and lets the host-side harness compare and talk to it.
TIER=$1 ID=C19
ROOT=$(cd "$(dirname "$0")/.." && pwd)
EV=$ROOT/evidence
LOG=$EV/$ID.build.log
. "$ROOT/lib.sh"
P=$ROOT/nostd-probe
case $TIER in
    quick) BUDGET=10 N=12 ;;
    *) BUDGET=300 N=250 ;;
esac
export CROSS_DIR=$P/target/cross CROSS_TARGETS="i686-unknown-linux-gnu s390x-unknown-linux-gnu" CROSS_N=$N
CROSS_SEED=$(printf '%x' $((VERIF_SEED * 7919 + 17)))
export CROSS_SEED
rm -rf "$P/target/cross"
mkdir -p "$CROSS_DIR"

cross() { # TARGET
    local t=$1 d=$P/target/miri-$1
    unset RUSTC_WRAPPER
    export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME=$d/cache MIRIFLAGS="-Zmiri-disable-stacked-borrows"
    mkdir -p "$d"
    cd "$P" || return
    cargo miri setup --target "$t" > "$CROSS_DIR/$t.setup" 2>&1 || return
    # the first run also builds; a build failure is not an answer of the program
    for k in constants "vectors $CROSS_SEED $N"; do
        set -- $k
        cargo miri run --offline --target "$t" --target-dir "$d" -- "$@" > "$CROSS_DIR/$t.$1" 2> "$CROSS_DIR/$t.$1.err"
        rc=$?
        if [ $rc != 0 ] && ! grep -qE "Running|panicked|Undefined Behavior" "$CROSS_DIR/$t.$1.err"; then return; fi
        if grep -q "unsupported operation" "$CROSS_DIR/$t.$1.err"; then return; fi
        echo $rc > "$CROSS_DIR/$t.$1.status"
    done
}
for t in $CROSS_TARGETS; do cross "$t" & done

build_harness "" || { wait; build_failed; }
if ! (cd "$P" && cargo build --offline --target-dir target) > "$LOG" 2>&1; then wait; build_failed; fi
wait
for t in $CROSS_TARGETS; do
    for k in constants vectors; do
        if [ ! -f "$CROSS_DIR/$t.$k.status" ]; then
            cat "$CROSS_DIR/$t."*err "$CROSS_DIR/$t.setup" 2> /dev/null | tail -20
            echo "NO ANSWER property=$ID: the probe could not be interpreted for $t"
            exit 3
        fi
    done
done
export PROBE_BIN=$P/target/debug/probe
run_pmon "$ID" --tier "$TIER" --budget "$BUDGET"
exit $?
