#!/bin/bash
# usage: tools/rp.sh <engine> <prop> <file> [tail] - replay and show the relevant trace (development aid)
cd /verif
E=$1; B=$(python3 check.py bin ${V:-debug} $E)
VF_ALL=1 $B replay --engine $1 --prop $2 --file $3 2>&1 | cut -c1-170 | tail -${4:-60}
