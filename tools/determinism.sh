#!/bin/bash
# determinism.sh [RUNS [SEEDS]]: compares the event logs of all the runs of every check between processes and between
# numbers of workers, for several seeds. The simulator must have been built (setup.sh).
ROOT=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_ROOT=$ROOT
BIN=$ROOT/target/debug/csvsim
RUNS=${1:-500} SEEDS=${2:-3} bad=0 all=0
for id in $("$BIN" list); do
    n=$RUNS
    [ "$id" = C18 ] && n=$((RUNS / 10 + 1))
    for seed in $(seq "$SEEDS"); do
        a=$("$BIN" digest "$id" "$seed" "$n" 1 | sha256sum)
        for workers in 1 3 8 16; do
            b=$(env -i PATH="$PATH" VERIF_ROOT="$ROOT" RANDOM_NOISE=$workers "$BIN" digest "$id" "$seed" "$n" $workers | sha256sum)
            all=$((all + 1))
            [ "$a" = "$b" ] || { echo "$id seed $seed workers $workers: the event logs differ"; bad=1; }
        done
    done
done
echo "$all comparisons of $RUNS runs each"
exit $bad
