#!/bin/bash
# development helper: seedcheck.sh ID [check.py args]: run the check of a kept seed against it in a private mount namespace
d=$(mktemp -d -p /tmp seedwt-XXXX)
cp -a /repo "$d/repo"
p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
(cd "$d/repo" && git apply "/verif/seeded/$1/patch.diff")
shift
unshare -m bash -c "mount --bind $d/repo /repo; cd /verif; python3 check.py ${P:-$p} $*"
rm -rf "$d"
