#!/bin/bash
# sweep.sh <tier> <seed0> <n> [props]: runs the checks of a copy of the committed work over several seeds, logs alarms to /tmp/sweep.log
D=$(mktemp -d /tmp/sweep.XXXX); git clone -q /verif $D/verif; git clone -q /repo $D/repo
T=$1 S0=$2 N=$3; shift 3
P=${*:-$(ls $D/verif/checks | sed 's/\.py//' | tr a-z A-Z)}
for s in $(seq $S0 $((S0+N-1))); do for p in $P; do
  VERIF_REPO=$D/repo VERIF_SEED=$s VERIF_TIER=$T nice -n 5 timeout 1500 bash $D/verif/run.sh $p --tier $T --seed $s > $D/out 2>&1
  rc=$?; echo "$(date +%H:%M:%S) $p $T $s rc=$rc $(tail -1 $D/out | cut -c1-200)" >> /tmp/sweep.log
  [ $rc != 0 ] && { cp $D/out /tmp/sweep.$p.$s.out; mkdir -p /tmp/sweepreplays; cp $D/verif/replays/$p-* /tmp/sweepreplays/ 2>/dev/null; }
done; done
rm -rf "$D"
