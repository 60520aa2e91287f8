#!/bin/bash
# run every check one after another: one summary line each; tools/all.sh [P01 P02 ...]
cd /verif
for p in ${@:-$(ls props | grep -oE '^p[0-9]+' | tr p P | sort)}; do
  s=$(date +%s)
  timeout 890 python3 check.py $p > /tmp/t_$p.out 2>&1; r=$?
  echo "$p rc=$r $(($(date +%s)-s))s undec=$(grep -c ^UNDEC /tmp/t_$p.out) $(tail -1 /tmp/t_$p.out | cut -c1-170)"
done
