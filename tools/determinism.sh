#!/bin/bash
# Runs the same simulated executions in many processes, in different orders and company, and compares the logs.
# usage: tools/determinism.sh [runs per seed] [seeds]
cd "$(dirname "$0")/.." || exit 2
N=${1:-200}; SEEDS=${2:-4}
D=$(mktemp -d /tmp/dst-det.XXXXXX)
bad=0; total=0
./run.sh setup >/dev/null 2>&1 || exit 2   # builds everything
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15; do
  for s in $(seq 1 $SEEDS); do
    export VERIF_SEED=$((s * 7919))
    ( DST_VERIF=$PWD target/sim/x86_64-unknown-linux-gnu/debug/dst hashes $p 0 $N 1 | sort -n > $D/a ) &
    ( DST_VERIF=$PWD setarch -R target/sim/x86_64-unknown-linux-gnu/debug/dst hashes $p 0 $N 7 | sort -n > $D/b ) &
    ( DST_VERIF=$PWD X=$(head -c 3000 /dev/zero | tr '\0' x) nice target/sim/x86_64-unknown-linux-gnu/debug/dst hashes $p 0 $N 13 | sort -n > $D/c ) &
    # several processes at once, each with its own part of the range
    ( for k in 0 1 2 3; do ( DST_VERIF=$PWD target/sim/x86_64-unknown-linux-gnu/debug/dst hashes $p $((k * N / 4)) $(((k + 1) * N / 4)) 3 > $D/d$k ) & done; wait; cat $D/d[0-3] | sort -n > $D/d )
    # written down and read back by a process that generates nothing
    ( export DST_VERIF=$PWD DST_SPECS=$D/specs; rm -f $D/specs; for k in 1 2; do target/sim/x86_64-unknown-linux-gnu/debug/dst hashes $p 0 $N 5; done | sort -n > $D/e ) &
    wait
    for x in b c d e; do cmp -s $D/a $D/$x || { echo "DIFFERENT: $p seed $VERIF_SEED ($x)"; diff $D/a $D/$x | head -6; bad=$((bad + 1)); }; done
    [ "$(wc -l < $D/a)" = "$N" ] || { echo "short output: $p"; bad=$((bad + 1)); }
    total=$((total + N))
  done
done
rm -rf "$D"
echo "$total executions, each repeated in 5 processes; $bad differences"
[ $bad = 0 ]
