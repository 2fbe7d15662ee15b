#!/bin/bash
# development loop: extract and verify (extra args go to verus)
R=$(cd "$(dirname "$0")/.." && pwd)
cd $R/extract && cargo build --offline 2>&1 | grep -E "^error" -A8
mkdir -p /tmp/w && ./target/debug/extract ${VERIF_REPO:-/repo} $R/contracts /tmp/w/o.rs /tmp/w/o.json && cd /tmp/w && time verus o.rs --triggers-mode silent "$@" 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/w/o.json'))
for f in d['fns']:
    if f['problems']: print('PROBLEM',f['key'],f['problems'])
print(d['problems'])
P
