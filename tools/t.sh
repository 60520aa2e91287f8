#!/bin/bash
# compact run of one or more checks: tools/t.sh "P01 P02" [regex]
for p in $1; do
  rm -f "/verif/evidence/replay/$p.txt"
  timeout ${T:-900} python3 /verif/check.py $p ${2:+--only "$2"} > /tmp/t_$p.out 2>&1
  grep -v ' ok .*viol=0' /tmp/t_$p.out | grep -v '^VIOLATED\|^VIOLATION\|^$' | cut -c1-${W:-260} | tail -${L:-6}
  [ -f "/verif/evidence/replay/$p.txt" ] && grep VIOLATED "/verif/evidence/replay/$p.txt" | grep -v '<double>' | cut -c1-${W:-300} | head -${L:-4}
done
exit 0
