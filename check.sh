#!/bin/bash
# check.sh PROPERTY [quick|thorough]   - decide one property against /repo's working tree
# check.sh --replay FILE               - rerun one saved case, printing its steps
# The thorough tier adds the optimized build, and more cases under Miri, for other targets too.
# Exit 0: held; 1: VIOLATION line; anything else: the check itself could not decide.
cd "$(dirname "$0")" || exit 2
export VERIF=$PWD
. ./env.sh
build() { # crate feature profile -> path of the binary in $BIN
    local dir=target/log; mkdir -p $dir
    if [ "$1" = sched ]; then # with all atomics scheduled, or else those of the feature `polyfill`
        tools/poly.sh all && cargo build --offline --manifest-path sched/Cargo.toml --features "$2" --profile "$3" >$dir/build-$2-sched.log 2>&1 || tools/poly.sh
    fi
    if ! cargo build --offline --manifest-path "$1/Cargo.toml" ${2:+--features "$2"} --profile "$3" >$dir/build-$2-$3.log 2>&1; then
        echo "ERROR: the check does not build against this tree:"; tail -40 $dir/build-$2-$3.log; exit 2
    fi
    local p=$3; [ "$p" = dev ] && p=debug
    BIN=$CARGO_TARGET_DIR/$p/$1
}
guided() { # crate feature -> path of the instrumented binary in $BIN
    local dir=target/cov; mkdir -p $dir
    cc -O2 -c pbt/cov.c -o $dir/cov.o >target/log/guided.log 2>&1 &&
    CARGO_TARGET_DIR=$VERIF/$dir COV_O=$VERIF/$dir/cov.o RUSTC_WRAPPER=$VERIF/tools/cov_rustc.sh RUSTFLAGS="$RUSTFLAGS --cfg pbt_cov" \
        cargo build --offline --manifest-path "$1/Cargo.toml" --features "$2" >>target/log/guided.log 2>&1 || return 1
    BIN=$VERIF/$dir/debug/$1
}
scope() { # what the programs generated for C21 are compiled with
    if ! python3 tools/scope_args.py >target/log/scope.log 2>&1; then
        echo "ERROR: the check does not build against this tree:"; tail -40 target/log/scope.log; exit 2
    fi
    export SCOPE_ARGS=$VERIF/target/scope.args
}
if [ "$1" = --replay ]; then
    id=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
    sub=$(sed -n 's/.*"sub": "\([^"]*\)".*/\1/p' "$2" | head -1)
    crate=checks profile=dev
    [[ $sub = *-miri* ]] && exec python3 tools/miri_part.py --replay "$2"
    [[ $sub = *schedules* ]] && crate=sched
    [[ $sub = *-release ]] && profile=release
    build $crate "${id/C/c}" $profile
    [ "$id" = C21 ] && scope
    exec "$BIN" replay --file "$2"
fi
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
EV=$VERIF/evidence/$ID.json
# The parts of the check: crate and profile. The release profile has no overflow checks and no
# debug assertions, so code that relies on them to refuse a request behaves differently.
PARTS="checks:dev"
case $ID in C03|C04) PARTS="sched:dev checks:dev";; esac
case $TIER:$ID in thorough:*|*:C05|*:C06|*:C11) PARTS="$PARTS checks:release";; esac
# Cases guided by coverage, on top of the same cases at random: not where programs are generated,
# and not where cases are few and long.
GUIDED=checks
case $ID in C03) GUIDED=sched;; C04) GUIDED="sched checks";; C21) GUIDED=;; esac
rm -f "$EV" "$EV.part"
mkdir -p target/log
[ "$ID" = C21 ] && scope
for part in $PARTS; do
    build "${part%:*}" "${ID/C/c}" "${part#*:}"
    out=$EV; [ -e "$EV" ] && out=$EV.part
    "$BIN" run --prop "$ID" --tier "$TIER" --seed "$SEED" --evidence "$out" --replays "$VERIF/replays"; rc=$?
    if [ $out != "$EV" ]; then python3 tools/merge_evidence.py "$EV" "$out"; rm -f "$VERIF/evidence/$ID.json.part"; fi
    [ $rc = 0 ] || exit $rc
done
for crate in $GUIDED; do
    # Without the instrumentation the check stands on the other cases.
    if ! guided $crate "${ID/C/c}"; then echo "note: no instrumented build, see target/log/guided.log"; continue; fi
    "$BIN" run --prop "$ID" --tier "$TIER" --seed "$SEED" --evidence "$EV.part" --replays "$VERIF/replays" --confirm "$CARGO_TARGET_DIR/debug/$crate"; rc=$?
    [ -e "$EV.part" ] && python3 tools/merge_evidence.py "$EV" "$EV.part"; rm -f "$VERIF/evidence/$ID.json.part"
    [ $rc = 0 ] || exit $rc
done
if [ "$ID" != C21 ]; then # the programs of C21 run nothing
    q=; [ "$TIER" = quick ] && q=quick
    python3 tools/miri_part.py "$ID" "$SEED" "$EV.part" "$VERIF/replays" $q; rc=$?
    [ -e "$EV.part" ] && python3 tools/merge_evidence.py "$EV" "$EV.part"; rm -f "$VERIF/evidence/$ID.json.part"
    exit $rc
fi
