#!/bin/bash
# usage: tools/big.sh <seed> <cases> <variant> [props] - large runs of the simulation engines (development aid)
cd /verif
B=$(python3 check.py bin ${3:-debug} tx cluster)
for p in ${4:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C23 C24 C25 C26}; do
  for e in tx cluster; do 
  ${ALL:+env VF_ALL=1} $B run --engine $e --prop $p --seed $1 --cases $2 --time 120 --jobs 8 --out /tmp/big.json --replay-out /tmp/big-$e-$p.json --shrink-time 5 >/dev/null 2>&1
  python3 -c "
import json;d=json.load(open('/tmp/big.json'));print('$e $p',d['rc'],d['evaluations'],d['nontrivial'],d['explore_s'],d['message'][:300],d['foreign_msgs'])"
  done
done
