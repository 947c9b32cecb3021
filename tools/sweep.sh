#!/bin/bash
# usage: tools/sweep.sh <seed> <n> <variant>  - survey of all simulation properties (development aid)
cd /verif
B=$(python3 check.py bin ${3:-debug} tx cluster)
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C23 C25 C26; do
  for e in tx cluster; do echo "== $e $p"; python3 tools/survey.py $B $e $p 0 $2 $1; done
done
