#!/bin/bash
# every registered check on the tree in SHARG_REPO (default /repo)
cd /verif
for c in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do timeout 900 python3 check.py $c quick 2>&1 | grep -a "^$c\|VIOLATION\|violated:\|KNOWN" | cut -c1-${W:-250}; done
