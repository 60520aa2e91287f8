#!/usr/bin/env python3
"""Nothing to build: checks that the toolchain the analyses rely on is present."""
import subprocess, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
for c in (['clang++-18', '--version'], ['opt-18', '--version']):
    r = subprocess.run(c, capture_output=True)
    if r.returncode:
        sys.exit('missing ' + c[0])
print('ok', sys.version.split()[0])
