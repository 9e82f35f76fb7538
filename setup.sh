#!/bin/bash
# Nothing to build ahead of time: the checks import /repo/src directly (the native readers are
# compiled by the checks that need them, from /repo's current tree, in scratch). This verifies the tools.
set -e
cd "$(dirname "$0")"
python3-vt - <<'P'
import hypothesis, jsonschema, json, sys
assert sys.version_info[:2] >= (3, 9)
for l in open('properties.jsonl'):
    json.loads(l)
json.load(open('MANIFEST.json'))
print('hypothesis', hypothesis.__version__)
P
mkdir -p evidence replays
