# sourced by check.sh and checks/*.sh

# build_harness FEATURES: build pmon from /repo's current tree
build_harness() {
    TGT=$ROOT/harness/target/${1:-plain}
    (cd "$ROOT/harness" && cargo build --offline --no-default-features --features "$1" --target-dir "$TGT") > "$LOG" 2>&1
}

# The harness does not build against this tree. That is no verdict, unless rustc itself refused
# while evaluating the interface macros' compile-time code on interfaces that are legal.
build_failed() {
    grep -E "^error" -A6 "$LOG" | head -40
    if grep -q "error\[E0080\]" "$LOG" && grep -qE "^(C02|C03|C14|C15)$" <<< "$ID"; then
        cp "$LOG" "$EV/replay/$ID-build.txt"
        echo "  the compile-time part of the interface macros fails on a legal interface"
        cat > "$EV/$ID.json" <<J
{"property": "$ID", "tier": "$TIER", "seed": $VERIF_SEED, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "compile-time evaluation of the harness interfaces by rustc", "samples": ["harness build"]},
 "wall_s": 1, "violations": 1}
J
        echo "VIOLATION property=$ID replay=$EV/replay/$ID-build.txt"
        exit 1
    fi
    echo "NO ANSWER property=$ID: the harness does not build, see $LOG"
    exit 3
}

# run_pmon ID ARGS...
run_pmon() {
    local id=$1
    shift
    grep -E "^KNOWN-FINDING: property=$id " "$ROOT/known_findings.txt"
    "$TGT/debug/pmon" "$id" --evidence "$EV/$id.json" --replay-dir "$EV/replay" "$@"
    local rc=$?
    case $rc in
        132 | 134 | 135 | 136 | 139)
            echo "process died with status $rc while running $id $*" > "$EV/replay/$id-crash.txt"
            echo "VIOLATION property=$id replay=$EV/replay/$id-crash.txt"
            return 1
            ;;
    esac
    return $rc
}

# --- multi-threaded workload (mt): natively and interpreted by Miri under seeded schedules ---------
mt_fail() { # SCEN OUTPUT HOW
    local r=$EV/replay/$ID-mt-$1.txt
    { echo "$3"; cat "$2"; } > "$r"
    grep -m1 -E "MT-VIOLATION|^error: (the evaluated program deadlocked|Undefined Behavior|memory leaked)|ThreadSanitizer|AddressSanitizer" "$2" | sed "s/^/  mt $1: /"
    mt_evidence 1
    echo "VIOLATION property=$ID replay=$r"
    exit 1
}
mt_build() {
    (cd "$ROOT/mt" && cargo build --offline --target-dir target/native) > "$LOG" 2>&1 || build_failed
}
mt_native() { # SCEN ROUNDS
    local o=$MTD/native.$1
    timeout 250 "$ROOT/mt/target/native/debug/mt" "$1" "$VERIF_SEED" "$2" > "$o" 2>&1
    local rc=$?
    if [ $rc != 0 ] && [ $rc != 124 ]; then mt_fail "$1" "$o" "mt/target/native/debug/mt $1 $VERIF_SEED $2 (status $rc)"; fi
    grep -h MT-OK "$o" | sed "s/^/native /" >> "$MTD/summary"
}
miri_setup() { # needs the nightly toolchain with miri; builds its standard library
    (
        unset RUSTC_WRAPPER
        export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME=$ROOT/mt/target/miri/cache
        mkdir -p "$ROOT/mt/target/miri"
        cd "$ROOT/mt" && cargo miri setup
    ) > "$LOG.miri" 2>&1 || { tail -5 "$LOG.miri"; echo "NO ANSWER property=$ID: Miri is not available"; exit 3; }
}
mt_miri() { # SCEN SEEDS RATE [FLAGS]
    local o=$MTD/miri.$1.$3 b=$((VERIF_SEED * 1000))
    local fl="-Zmiri-preemption-rate=$3 -Zmiri-tree-borrows -Zmiri-many-seeds=$b..$((b + $2)) $4"
    (
        unset RUSTC_WRAPPER
        export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME=$ROOT/mt/target/miri/cache MIRIFLAGS=$fl
        cd "$ROOT/mt" && timeout "${MIRI_LIMIT:-200}" cargo miri run --offline --target-dir target/miri -- "$1" "$VERIF_SEED" 1
    ) > "$o" 2>&1
    local rc=$?
    if grep -qE "MT-VIOLATION|^error: (the evaluated program deadlocked|Undefined Behavior|memory leaked)" "$o"; then
        mt_fail "$1" "$o" "cd mt; MIRIFLAGS='$fl' cargo +nightly miri run -- $1 $VERIF_SEED 1"
    fi
    local ok
    ok=$(grep -c MT-OK "$o")
    if [ "$ok" = 0 ]; then
        grep -E "^error" -A8 "$o" | head -30
        echo "NO ANSWER property=$ID: no execution under Miri finished (status $rc)"
        exit 3
    fi
    echo "miri $1 schedules=$ok rate=$3 distinct_outcomes=$(grep MT-OK "$o" | sort -u | wc -l)" >> "$MTD/summary"
}
mt_evidence() { # VIOLATIONS
    python3 "$ROOT/tools/merge_ev.py" "$EV/$ID.json" "$MTD/summary" "$ID" "$TIER" "$VERIF_SEED" "$1" "${SECONDS:-1}"
}
# mt_stage "SCEN ROUNDS SEEDS RATE"...
mt_stage() {
    MTD=$ROOT/mt/target/out-$ID
    rm -rf "$ROOT/mt/target/out-$ID"
    mkdir -p "$MTD"
    : > "$MTD/summary"
    local k=1 s x
    [ "$TIER" = quick ] || { k=8; MIRI_LIMIT=800; }
    miri_setup &
    local mp=$!
    mt_build
    for s in "$@"; do
        read -r -a x <<< "$s"
        [ "${x[1]}" = 0 ] || mt_native "${x[0]}" $((x[1] * k))
    done
    wait $mp || exit 3
    for s in "$@"; do
        read -r -a x <<< "$s"
        mt_miri "${x[0]}" $((x[2] * k)) "${x[3]}"
    done
    mt_evidence 0
    sed 's/^/  /' "$MTD/summary"
}
