#!/bin/bash
# development helper: try.sh FILE(relative to include) SED-EXPRESSION PID [check args]: a check against an edited private copy
d=$(mktemp -d -p /tmp try-XXXX)
cp -a /repo "$d/repo"
f="$d/repo/libs/mathlib/include/$1"
sed -i "$2" "$f"
(cd "$d/repo" && git diff --stat | tail -1)
shift 2
unshare -m bash -c "mount --bind $d/repo /repo; cd /verif; for p in ${P:-$1}; do python3 check.py \$p ${*:2}; done"
rm -rf "$d"
