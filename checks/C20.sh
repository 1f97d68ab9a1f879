#!/bin/bash
# C20: the whole harness under AddressSanitizer, the multi-threaded workload under ThreadSanitizer
# and Miri, single-threaded scenarios under Miri, and live-heap monitoring. Only memory errors, data
# races, library panics of the arithmetic / indexing kind, leaks and growth are judged here; what
# the other oracles of a workload say belongs to the other properties.
TIER=$1 ID=C20
ROOT=$(cd "$(dirname "$0")/.." && pwd)
EV=$ROOT/evidence
LOG=$EV/$ID.build.log
. "$ROOT/lib.sh"
case $TIER in
    quick) BUDGET=5 AB=2 K=1 FEW=2 SEEDS=16 ;;
    *) BUDGET=120 AB=30 K=10 FEW=12 SEEDS=160 ;;
esac
MTD=$ROOT/mt/target/out-$ID
rm -rf "$ROOT/mt/target/out-$ID"
mkdir -p "$MTD"
: > "$MTD/summary"
H=$ROOT/harness
ARCH=x86_64-unknown-linux-gnu
MEM='AddressSanitizer|LeakSanitizer|ThreadSanitizer|Undefined Behavior|memory leaked|SIGSEGV|stack overflow'
# messages of failed arithmetic, indexing and slicing checks
ARITH='attempt to [a-z ]* (with overflow|by zero)|out of range for slice|out of bounds|out of range|index starts at|with a divisor of zero|source slice length|mid > len|byte index|char boundary|unsafe precondition'

fail() { # NAME OUTPUT HOW
    local r=$EV/replay/$ID-$1.txt
    { echo "$3"; cat "$2"; } > "$r"
    grep -m1 -E "$MEM|$ARITH" "$2" | cut -c1-300 | sed "s/^/  $1: /"
    mt_evidence 1
    echo "VIOLATION property=$ID replay=$r"
    exit 1
}
none() { echo "NO ANSWER property=$ID: $1"; exit 3; }

# --- builds, at the same time
nightly() { unset RUSTC_WRAPPER; export RUSTUP_TOOLCHAIN=nightly; }
( build_harness "" ) &
B1=$!
( nightly; cd "$H" && RUSTFLAGS=-Zsanitizer=address cargo build --offline --features serial,usbdev,nusb --target $ARCH --target-dir target/asan ) > "$LOG.asan" 2>&1 &
B2=$!
( nightly; cd "$ROOT/mt" && RUSTFLAGS=-Zsanitizer=thread cargo build --offline -Zbuild-std --target $ARCH --target-dir target/tsan ) > "$LOG.tsan" 2>&1 &
B3=$!
miri_setup &
B4=$!
(cd "$ROOT/nostd-probe" && cargo build --offline --target-dir target) > "$LOG.probe" 2>&1 &
B5=$!
wait $B1 || { wait; build_failed; }
TGT=$H/target/plain
run_pmon "$ID" --tier "$TIER" --budget "$BUDGET" || { rc=$?; wait; exit $rc; }
wait $B3 || { tail -5 "$LOG.tsan"; wait; none "the ThreadSanitizer build failed"; }
wait $B4 || { wait; exit 3; }
wait $B2 || { tail -5 "$LOG.asan"; wait; none "the AddressSanitizer build failed"; }
wait $B5

# --- Miri, in the background: few cases per scenario, several processes
mirienv() {
    nightly
    export XDG_CACHE_HOME=$ROOT/mt/target/miri/cache
}
if ! (mirienv; cd "$H" && MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-disable-isolation" cargo miri run --offline --features serial,usbdev,nusb --target-dir target/miri -- list) > "$MTD/few.list" 2>&1; then
    tail -5 "$MTD/few.list"
    none "the harness could not be interpreted"
fi
few() { # ID SCENARIO N
    local o=$MTD/few.$1.$2 fl="-Zmiri-tree-borrows -Zmiri-disable-isolation"
    # the simulated USB stacks and ports are leaked by the harness itself
    case $1 in C16 | C17 | C18 | C23 | C26 | C29) fl="$fl -Zmiri-ignore-leaks" ;; esac
    (mirienv; cd "$H" && MIRIFLAGS=$fl timeout "${MIRI_LIMIT:-400}" cargo miri run --offline --features serial,usbdev,nusb --target-dir target/miri -- few "$1" "$2" "$3") > "$o" 2>&1
    echo "cd harness; MIRIFLAGS='$fl' cargo +nightly miri run --features serial,usbdev,nusb -- few $1 $2 $3" > "$o.how"
}
export -f few mirienv nightly
export MTD H ROOT MIRI_LIMIT
JOBS="C01:encode C01:decode_random C01:frame_bytes C02:* C13:streams C13:boundary C16:healthy C16:deadline C17:transfers C18:usb C18:boundary C18:faults C18:channel C26:life C22:connect C05:send_failures C06:hostile C06:channels C04:calls C21:reuse C20:client_lives"
[ "$TIER" = quick ] || { JOBS="$JOBS C20:client_growth C20:server_growth C05:scripts C05:gated_spawn C07:hostile C08:end C09:exclusive C10:broadcast C11:outgoing C12:negotiation C21:abandon C28:local"; export MIRI_LIMIT=1500; }
for j in $JOBS; do
    grep -hE "^C[0-9]+ " "$MTD/few.list" | while read -r i s; do
        case "$i:$s" in $j) echo "$i $s $FEW" ;; esac
    done
done | xargs -P 6 -L 1 bash -c 'few "$@"' _ &
XP=$!

# --- ThreadSanitizer
for s in calls close closesub subs publish server logs; do
    o=$MTD/tsan.$s
    n=$((300 * K))
    TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 300 "$ROOT/mt/target/tsan/$ARCH/debug/mt" $s "$VERIF_SEED" $n > "$o" 2>&1
    rc=$?
    if grep -qE "$MEM|$ARITH" "$o"; then wait; fail "tsan-$s" "$o" "mt/target/tsan/$ARCH/debug/mt $s $VERIF_SEED $n"; fi
    echo "tsan $s status=$rc executions=$n distinct=$(grep -c MT-OK "$o")" >> "$MTD/summary"
done
grep -q "^tsan .*status=0" "$MTD/summary" || { wait; none "no ThreadSanitizer run finished"; }

# --- AddressSanitizer over every workload
"$H/target/asan/$ARCH/debug/pmon" list > "$MTD/list" 2> /dev/null
export PROBE_BIN=$ROOT/nostd-probe/target/debug/probe CROSS_TARGETS="" CROSS_N=1 CROSS_SEED=1 CROSS_DIR=$MTD
for i in $(cut -d' ' -f1 "$MTD/list" | sort -u); do
    case $i in C19 | C20) continue ;; esac
    o=$MTD/asan.$i
    lk=1
    case $i in C16 | C17 | C18 | C23 | C26 | C29) lk=0 ;; esac
    ASAN_OPTIONS="detect_leaks=$lk exitcode=67 detect_stack_use_after_return=1" LSAN_OPTIONS=exitcode=67 timeout $((AB * 4 + 120)) \
        "$H/target/asan/$ARCH/debug/pmon" "$i" --budget "$AB" --scale 0.02 --evidence "$MTD/asan.$i.json" --replay-dir "$MTD" > "$o" 2>&1
    rc=$?
    if [ $rc = 67 ] || grep -qE "$MEM" "$o" || grep "panic in code under test" "$o" | grep -qE "$ARITH"; then
        wait
        fail "asan-$i" "$o" "harness/target/asan/$ARCH/debug/pmon $i --budget $AB"
    fi
    n=$(python3 -c "import json;c=json.load(open('$MTD/asan.$i.json'))['coverage'];print('executions=%d distinct=%d'%(c.get('executions',c['evaluations']),c['distinct_nontrivial']))" 2> /dev/null)
    echo "asan $i status=$rc ${n:-executions=0 distinct=0}" >> "$MTD/summary"
done
grep -q "^asan .*status=0" "$MTD/summary" || { wait; none "no AddressSanitizer run finished"; }

# --- Miri results
wait $XP
fin=0
for h in "$MTD"/few.*.how; do
    o=${h%.how}
    if grep -qE "^error: ($MEM|Undefined)|Undefined Behavior|memory leaked" "$o" || grep FEW-VIOLATION "$o" | grep -qE "$ARITH"; then
        fail "miri-$(basename "$o")" "$o" "$(cat "$h")"
    fi
    if grep -q FEW-OK "$o"; then
        fin=$((fin + 1))
        grep -h FEW-OK "$o" | sed -E 's/^FEW-OK (\S+) (\S+) cases=([0-9]+)/few miri:\1:\2 executions=\3/' >> "$MTD/summary"
    else
        echo "few miri:$(basename "$o") unfinished" >> "$MTD/summary"
    fi
done
[ $fin -ge 8 ] || none "only $fin single-threaded scenarios finished under Miri"
mmt() { # SCEN SEEDS RATE
    local o=$MTD/miri.$1.$3 b=$((VERIF_SEED * 1000 + 500))
    local fl="-Zmiri-preemption-rate=$3 -Zmiri-tree-borrows -Zmiri-many-seeds=$b..$((b + $2))"
    (mirienv; cd "$ROOT/mt" && MIRIFLAGS=$fl timeout "${MIRI_LIMIT:-200}" cargo miri run --offline --target-dir target/miri -- "$1" "$VERIF_SEED" 1) > "$o" 2>&1
    if grep -qE "Undefined Behavior|memory leaked" "$o" || grep MT-VIOLATION "$o" | grep -qE "$ARITH"; then
        fail "miri-mt-$1" "$o" "cd mt; MIRIFLAGS='$fl' cargo +nightly miri run -- $1 $VERIF_SEED 1"
    fi
    echo "miri $1 schedules=$(grep -c MT-OK "$o") rate=$3 distinct_outcomes=$(grep MT-OK "$o" | sort -u | wc -l)" >> "$MTD/summary"
}
for s in calls close closesub subs publish server logs; do
    mmt $s "$SEEDS" 0.03
    mmt $s "$SEEDS" 0.005
done
grep -qE "^miri .*schedules=[1-9]" "$MTD/summary" || none "no multi-threaded execution finished under Miri"
mt_evidence 0
sed 's/^/  /' "$MTD/summary"
exit 0
