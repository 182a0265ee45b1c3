#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'specs')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
for f in sorted(os.listdir(S)):
    if f.endswith('.tla'):
        r = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', f], cwd=S, capture_output=True, text=True)
        if r.returncode:
            print(f, r.stdout[-2000:])
            bad = 1
for t in ('g++', 'java'):
    if subprocess.run(['which', t], capture_output=True).returncode:
        print('missing', t)
        bad = 1
sys.exit(bad)
