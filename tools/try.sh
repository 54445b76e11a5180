#!/bin/bash
# try.sh C09 [tier] [seeds...]: run a check, show what it reported
p=$1; tier=${2:-quick}; shift 2
cd /verif; find replays -name "$p-*.json" -delete 2>/dev/null
for s in ${@:-1}; do VERIF_COUNTS=1 bash run.sh $p --tier $tier --seed $s 2>&1 | tail -${TAIL:-12}; done
ls replays/$p-*.json >/dev/null 2>&1 && python3 tools/show.py replays/$p-*.json 2>&1 | cut -c1-${W:-220} | head -${L:-70}
exit 0
