#!/bin/bash
# run every check once (quick); prints only what is not quiet
cd "$(dirname "$0")/.."
SEED=${1:-1}
for c in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s); out=$(python3-vt run.py $c --seed $SEED 2>&1); rc=$?; e=$(date +%s)
  echo "$c rc=$rc $((e-s))s"; [ $rc != 0 ] && echo "$out" | tail -8
done
