#!/bin/bash
# development helper: extract and verify
cd /verif/proof
${EXT:-/tmp/ext/release/extract} /repo/src $(ls *.vrs) --out /tmp/vt/out.rs --map /tmp/vt/out.json --const MAX_DEPTH=15 || exit 1
python3 -c "
import json;d=json.load(open('/tmp/vt/out.json'))
for p in d['problems']: print('PROBLEM',p)"
verus /tmp/vt/out.rs "$@"
