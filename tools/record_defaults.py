#!/usr/bin/env python3
"""Writes lib/defaults.json from the classes in /repo (run once, then reviewed by hand; not part of any check)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import avb
import fresh
f = avb.open()
r = {}
for n in fresh.names():
    r[n] = fresh.describe(f.create.from_name(n))
json.dump(r, open(os.path.join(HERE, '..', 'lib', 'defaults.json'), 'w'), indent=1, sort_keys=True)
