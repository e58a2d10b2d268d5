#!/bin/bash
# check.sh <property> [quick|thorough]: builds what the property needs from
# /repo's working tree and decides it. 0: held on everything explored;
# 1: violated, with a VIOLATION line; 2: could not be decided (build failure).
set -u
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS MIRIFLAGS
mkdir -p "$ROOT/evidence" "$ROOT/replays"
rm -f "$ROOT/replays/$ID.txt" "$ROOT/replays/$ID-signal.txt"
cd "$ROOT/harness" || exit 2
LOG=$ROOT/harness/target/log.$ID
mkdir -p "$ROOT/harness/target"

undecided() {
    echo "UNDECIDED property=$ID: $1" >&2
    [ -n "${2:-}" ] && tail -40 "$2" >&2
    exit 2
}

# build <target dir> <cargo arguments>: from scratch as far as norm goes, so
# that no timestamp decides what is tested.
build() {
    local dir=$1; shift
    rm -rf "$ROOT/harness/$dir"/*/.fingerprint/norm* "$ROOT/harness/$dir"/*/*/.fingerprint/norm*
    CARGO_TARGET_DIR=$dir cargo ${TOOLCHAIN:-} build --offline --locked "$@" >"$LOG.$(basename "$dir")" 2>&1
}

case $ID in
C22)
    # With the debug assertions: those of the standard library's unsafe
    # functions end the process.
    export ASAN_OPTIONS=detect_leaks=0:exitcode=1:symbolize=0
    T=x86_64-unknown-linux-gnu
    (TOOLCHAIN=+nightly RUSTFLAGS="-Zsanitizer=address --cfg norm_asan" \
        build target/asan --profile checked --target $T) || undecided "sanitizer build failed" "$LOG.asan"
    (TOOLCHAIN=+nightly RUSTFLAGS="-Zsanitizer=address --cfg norm_asan" \
        build target/asanrel --release --target $T) || undecided "sanitizer build failed" "$LOG.asanrel"
    N=$(nproc)
    rm -rf target/miri/*/*/.fingerprint/norm* target/miri/*/*/*/.fingerprint/norm*
    export MIRIFLAGS="-Zmiri-disable-stacked-borrows"
    miri() { CARGO_TARGET_DIR=target/miri timeout 850 cargo +nightly miri run --offline --locked -- miri "$@" "$TIER"; }
    # Builds, and runs nothing.
    miri 1 1000000 >"$LOG.miri" 2>&1 || grep -q "Undefined Behavior" "$LOG.miri" ||
        undecided "interpreter build failed" "$LOG.miri"
    rm -f "$LOG".shard.*
    for i in $(seq 0 $((N - 1))); do
        miri "$i" "$N" >"$LOG.shard.$i" 2>&1 &
    done
    wait
    for i in $(seq 0 $((N - 1))); do
        if grep -q "Undefined Behavior" "$LOG.shard.$i"; then
            cp "$LOG.shard.$i" "$ROOT/replays/$ID.txt"
            grep -A12 -m1 "Undefined Behavior" "$LOG.shard.$i"
            target/asan/$T/checked/normcheck C22 >/dev/null 2>&1
            echo "VIOLATION property=$ID replay=$ROOT/replays/$ID.txt"
            exit 1
        fi
        grep -q "^MIRI cases" "$LOG.shard.$i" || undecided "interpreter shard $i did not finish" "$LOG.shard.$i"
    done
    MIRI_CALLS=$(cat "$LOG".shard.* | sed -n 's/^MIRI cases=[0-9]* calls=\([0-9]*\).*/\1/p' | paste -sd+ | bc)
    export MIRI_CALLS
    echo "interpreted calls: $MIRI_CALLS, no undefined behaviour"
    # Without them, first: what only they do is missing there.
    target/asanrel/$T/release/normcheck C22 2>"$LOG.asan.err"
    rc=$?
    if [ $rc -eq 0 ]; then
        target/asan/$T/checked/normcheck C22 2>"$LOG.asan.err"
        rc=$?
    fi
    [ $rc -ne 0 ] && head -30 "$LOG.asan.err"
    exit $rc
    ;;
C23)
    # Other machines: 32 bits, and the other byte order, in the interpreter.
    OTHERS="i686-unknown-linux-gnu s390x-unknown-linux-gnu"
    [ "$TIER" = thorough ] && OTHERS="$OTHERS powerpc-unknown-linux-gnu"
    export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks"
    elsewhere() { # target, cargo miri arguments
        local t=$1; shift
        MIRI_SYSROOT=$ROOT/harness/target/sysroot/$t CARGO_TARGET_DIR=target/miri-$t \
            timeout 800 cargo +nightly miri "$@"
    }
    mkdir -p target/sysroot
    for t in $OTHERS; do
        rm -rf "target/miri-$t"/*/*/.fingerprint/norm* "$LOG.$t".*
        (elsewhere "$t" setup --target "$t" >"$LOG.$t.setup" 2>&1 &&
            elsewhere "$t" run --target "$t" --offline --locked -- answers 1 1000000 quick >"$LOG.$t.build" 2>&1 &&
            touch "$LOG.$t.ok") &
    done
    build target --profile checked & a=$!
    build target/rel --release & b=$!
    build target/pln --profile plain & c=$!
    build target/v1 --profile checked --no-default-features --features v1 & d=$!
    build target/v2 --release --no-default-features --features v2 & e=$!
    for p in $a $b $c $d $e; do
        wait "$p" || undecided "a build failed: $(grep -l '^error' "$LOG".* | tr '\n' ' ')" "$(grep -l '^error' "$LOG".* | head -1)"
    done
    D=$ROOT/harness/target/digests
    mkdir -p "$D"
    args=()
    run() { # label binary metric
        rm -f "$D/$1_$3"
        "$2" digest "$3" "$D/$1_$3" >"$LOG.run" 2>&1 || {
            grep -m1 "^VIOLATION" "$LOG.run" && exit 1
            undecided "$1 $3 did not finish" "$LOG.run"
        }
        args+=("$1_$3=$D/$1_$3")
    }
    for m in V1 V2; do
        run checked target/checked/normcheck $m
        run release target/rel/release/normcheck $m
        run plain target/pln/plain/normcheck $m
    done
    run only target/v1/checked/normcheck V1
    run only target/v2/release/normcheck V2
    wait
    N=$(nproc)
    # The shards of every target and of this one.
    list=()
    for t in $OTHERS; do
        if [ ! -f "$LOG.$t.ok" ]; then
            grep -q "^error.*norm" "$LOG.$t.build" 2>/dev/null && undecided "$t: build failed" "$LOG.$t.build"
            echo "not covered: $t (no interpreter for it here)"
            continue
        fi
        for i in $(seq 0 $((N - 1))); do list+=("$t $i"); done
    done
    one() {
        local t=$1 i=$2
        elsewhere "$t" run --target "$t" --offline --locked -- answers "$i" "$N" "$TIER" >"$LOG.$t.shard.$i" 2>&1
    }
    for x in "${list[@]}"; do
        while [ "$(jobs -rp | wc -l)" -ge "$N" ]; do wait -n; done
        one $x &
    done
    wait
    rm -f "$LOG.here"
    for i in $(seq 0 $((N - 1))); do
        target/checked/normcheck answers "$i" "$N" "$TIER" >>"$LOG.here" 2>&1
    done
    grep "^case" "$LOG.here" | sort >"$LOG.here.sorted"
    ELSEWHERE_CASES=0
    differ=
    for t in $OTHERS; do
        [ -f "$LOG.$t.ok" ] || continue
        cat "$LOG.$t".shard.* | grep "^case" | sort >"$LOG.$t.sorted"
        [ "$(cat "$LOG.$t".shard.* | grep -c "^MIRI cases")" = "$N" ] || {
            # An interpreter that ends early has met something it rejects.
            differ="$t: the interpreter ended early: $(cat "$LOG.$t".shard.* | grep -m1 -A3 "^error" | tr '\n' ' ')"
            break
        }
        if ! cmp -s "$LOG.$t.sorted" "$LOG.here.sorted"; then
            differ="$t: $(diff "$LOG.here.sorted" "$LOG.$t.sorted" | grep '^[<>]' | head -4 | tr '\n' ' ')"
            break
        fi
        ELSEWHERE_CASES=$((ELSEWHERE_CASES + $(wc -l <"$LOG.$t.sorted")))
    done
    export ELSEWHERE_CASES
    echo "cases answered alike on other targets: $ELSEWHERE_CASES"
    if [ -n "$differ" ]; then
        target/checked/normcheck C23 "${args[@]}" >/dev/null 2>&1
        {
            echo "property C23"
            echo "answers that differ from this machine's (case number, digest of its answers, query):"
            echo "$differ"
            echo "run again: cd harness && cargo +nightly miri run --target <target> -- answers 0 1 $TIER"
        } >"$ROOT/replays/$ID.txt"
        cat "$ROOT/replays/$ID.txt"
        echo "VIOLATION property=$ID replay=$ROOT/replays/$ID.txt"
        exit 1
    fi
    target/checked/normcheck C23 "${args[@]}"
    exit $?
    ;;
C24)
    # The defaults of the builds that have one metric only are theirs.
    build target --profile checked & a=$!
    build target/v1s --profile checked --no-default-features --features v1,score & b=$!
    build target/v2s --profile checked --no-default-features --features v2,score & c=$!
    for p in $a $b $c; do
        wait "$p" || undecided "a build failed" "$(grep -l '^error' "$LOG".* | head -1)"
    done
    for b in target/v1s target/v2s target; do
        "$b/checked/normcheck" "$ID" || exit $?
    done
    ;;
C28)
    build target/rel --release || undecided "build failed" "$LOG.rel"
    N=$(nproc)
    rm -f "$LOG".counts.* "$LOG".shard.*
    for i in $(seq 0 $((N - 1))); do
        timeout 840 valgrind --tool=callgrind --combine-dumps=yes --collect-atstart=no \
            --callgrind-out-file="$LOG.counts.$i" \
            target/rel/release/normcheck work "$i" "$N" "$TIER" >"$LOG.shard.$i" 2>&1 &
    done
    wait
    for i in $(seq 0 $((N - 1))); do
        grep -q "^counted" "$LOG.shard.$i" || undecided "counting shard $i did not finish" "$LOG.shard.$i"
    done
    target/rel/release/normcheck C28 "$LOG".counts.*
    rc=$?
    rm -f "$LOG".counts.*
    exit $rc
    ;;
*)
    build target --profile checked || undecided "build failed" "$LOG.target"
    target/checked/normcheck "$ID"
    exit $?
    ;;
esac
