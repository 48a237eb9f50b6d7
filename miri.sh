#!/bin/bash
# The concurrent workload of C19 under Miri: data races and undefined behaviour.
# Only what Miri itself reports as such (or a wrong result) is a violation; if the tool cannot be
# used here, that is noted in the evidence and nothing is claimed from it.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target/miri"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" work/replay
seed=${VERIF_SEED:-1}
cases=2; runs="1"; limit=200
[ "${VERIF_TIER:-quick}" = thorough ] && { cases=4; runs="1 2 3 4 5 6"; limit=500; }
log=work/miri-$$.log
trap 'rm -f "$log"' EXIT
start=$(date +%s)
note="" ; bad=0; done_runs=0
(
    flock 9
    cd harness || exit 3
    cargo +nightly clean -q --offline -p prosemirror >/dev/null 2>&1
    for r in $runs; do
        left=$(( limit - $(date +%s) + start ))
        [ $left -gt 20 ] || break
        echo "== miri seed $((seed * 100 + r))"
        MIRIFLAGS="-Zmiri-seed=$((seed * 100 + r)) -Zmiri-disable-isolation -Zmiri-preemption-rate=0.05" \
            timeout -k 5 $left cargo +nightly miri run -q --offline --locked -- miri $cases
        echo "== ended with $?"
    done
) 9>"$CARGO_TARGET_DIR/.lock" >"$log" 2>&1
done_runs=$(grep -c '^== ended with 0$' "$log")
if grep -q 'error: Undefined Behavior\|Data race detected\|data race' "$log" || grep -q '^case [0-9]*: .*\(instead of\|gives\|cannot be shared\)' "$log"; then
    bad=1
fi
obs=$(grep '^case ' "$log" | grep -c interleavings)
python3 - "$done_runs" "$obs" "$log" <<'P'
import json,sys
n,obs,log=sys.argv[1:]
f='evidence/C19.json'
e=json.load(open(f))
t=open(log).read()
e['coverage']['miri']={'runs_completed':int(n),'concurrent_cases_interpreted':int(obs)}
if int(n)==0:
    e['coverage']['miri']['note']='no run completed: '+t[-400:]
json.dump(e,open(f,'w'),indent=2)
P
echo "C19 under Miri: $done_runs runs completed, $obs concurrent cases interpreted, $(( $(date +%s) - start )) s"
if [ $bad = 1 ]; then
    cp "$log" work/replay/C19-miri-$seed.log
    grep -m1 -A25 'error: Undefined\|^case [0-9]*: .*\(instead of\|gives\|cannot be shared\)' "$log" | cut -c1-600
    echo "VIOLATION property=C19 replay=$PWD/work/replay/C19-miri-$seed.log"
    exit 1
fi
exit 0
