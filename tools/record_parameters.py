#!/usr/bin/env python3
"""Writes lib/parameters.json (identifier -> name) from the table in /repo; run once, not part of any check."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'))
from avb.parameter_uuids import PARAMETER_UUIDS
json.dump(PARAMETER_UUIDS, open(os.path.join(HERE, '..', 'lib', 'parameters.json'), 'w'), indent=0, sort_keys=True)
