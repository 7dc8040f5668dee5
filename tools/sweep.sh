#!/bin/bash
# sweep.sh "SEEDS" [ID...] : run the quick checks with several seeds, print what is not quiet
cd /verif || exit 9
seeds=$1; shift
[ $# -gt 0 ] || set -- $(python3 -c "from props import CFG;print(*CFG)")
for s in $seeds; do for i in "$@"; do
  o=$(VERIF_SEED=$s timeout 900 python3 check.py $i 2>&1); c=$?
  echo "seed $s $i exit $c $(echo "$o" | tail -1 | grep -o 'build.*total [0-9.]*s')"
  [ $c = 0 ] || echo "$o" | tail -30 | cut -c1-300
done; done
