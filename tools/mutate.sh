#!/bin/bash
d=$(mktemp -d -p /tmp mut-XXXX)
cp -a /repo "$d/repo"; mkdir "$d/verif"; cd /verif && cp -a check.py engine props tools properties.jsonl known-findings.jsonl MANIFEST.json "$d/verif"; mkdir "$d/verif/evidence"
unshare -m bash -c "mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /verif; python3 tools/mutate.py \"\$@\"" x "$@"
rm -rf "$d"
