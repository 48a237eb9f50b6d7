#!/bin/bash
# check.sh <PID>                one property, tier and seed from VERIF_TIER / VERIF_SEED
# check.sh replay <PID> <CASE>  one case again
# check.sh build                build only
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else: no answer.
set -u
cd "$(dirname "$0")" || exit 2
export PMV_HOME="$PWD"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
mkdir -p target work evidence

# build PROFILE: always from /repo's current working tree
build() {
    (
        flock 9
        cd harness || exit 2
        cargo clean -q --offline --profile "$1" -p prosemirror >/dev/null 2>&1
        for _ in 1 2; do
            if cargo build -q --offline --locked --profile "$1" >../work/build-$1.log 2>&1; then
                # a copy of its own, so that another check's build cannot change it under way
                cp "$CARGO_TARGET_DIR/$1/pmv" "$2" && exit 0
            fi
        done
        grep -A12 '^error' ../work/build-$1.log | head -60
        exit 2
    ) 9>"$CARGO_TARGET_DIR/.lock"
}

bin="$PWD/work/pmv-$$"
trap 'rm -f "$bin" "$bin-plain"' EXIT

case "${1:-}" in
build)
    build release "$bin" && "$bin" list
    exit $?
    ;;
replay)
    build release "$bin" || { echo "ERROR: the harness does not build"; exit 2; }
    "$bin" one "$2" "$3"
    exit $?
    ;;
C[0-9][0-9]) ;;
*)
    echo "usage: check.sh <PID> | replay <PID> <CASE> | build"
    exit 2
    ;;
esac
pid=$1

build release "$bin" || { echo "ERROR: the harness does not build"; exit 2; }
thorough=0
[ "${VERIF_TIER:-quick}" = thorough ] && thorough=1

if [ $thorough = 1 ]; then
    # the build a user ships (wrapping arithmetic, no debug assertions), with another seed
    build plain "$bin-plain" || { echo "ERROR: the harness does not build"; exit 2; }
    PMV_BUILD=plain PMV_BUDGET_S="${PMV_BUDGET_S:-240}" VERIF_SEED=$(( ${VERIF_SEED:-1} + 1000003 )) "$bin-plain" run "$pid"
    rc=$?
    [ $rc = 0 ] || exit $rc
fi
"$bin" run "$pid"
rc=$?
[ $rc = 0 ] || exit $rc

if [ "$pid" = C19 ]; then
    ./miri.sh
    rc=$?
fi
exit $rc
