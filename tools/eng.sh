#!/bin/bash
# usage: tools/eng.sh <engine> <seed> <cases> <variant> <props> - development runs of one engine
cd /verif
B=$(python3 check.py bin $4 $1) || { echo "$B" | grep error; exit 1; }
for p in $5; do env VF_ALL=1 $B run --engine $1 --prop $p --seed $2 --cases $3 --time 120 --jobs 8 --out /tmp/o-$1.json --replay-out /tmp/$1-$p.json --shrink-time 5 >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/o-$1.json'));print('$p',d['rc'],d['evaluations'],d['nontrivial'],d['explore_s'],d['message'][:300],d['labels'] if '$6' else '')"; done
