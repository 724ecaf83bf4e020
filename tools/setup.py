#!/usr/bin/env python3
"""Builds the harness and checks that every specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
bad = 0
for f in sorted(os.listdir(vlib.SPEC)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', vlib.JARS, 'tla2sany.SANY', f], cwd=vlib.SPEC, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stdout[-2000:])
            bad = 1
sys.exit(bad)
