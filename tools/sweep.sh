#!/bin/bash
# Runs checks for several seeds: sweep.sh "P01 P02" 1 5
for s in $(seq $2 $3); do for p in $1; do
  t=$(date +%s); o=$(VERIF_SEED=$s python3 "$(dirname "$0")"/../check.py $p 2>&1); c=$?
  echo "seed $s $p rc=$c $(( $(date +%s) - t ))s"; [ $c = 0 ] || { echo "$o" | tail -8 | cut -c1-600; d=/tmp/sweepfail/$p-$s; mkdir -p $d; cp -r "$(dirname "$0")"/../replay $d/; }
done; done
