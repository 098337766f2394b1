#!/bin/bash
# try.sh SEED ID...: run checks against a copy of /repo with the planted bug (or a plain diff) applied
d=$(mktemp -d); git -C /repo archive HEAD | tar -x -C $d
p=/verif/seeded/$1/patch.diff; [ -f "$p" ] || p=$1
(cd $d && git apply $p) || exit 9
shift
for i in "$@"; do (cd /verif && SHARG_REPO=$d python3 check.py $i 2>&1 | cut -c1-${W:-260} | head -${N:-14}); done
rm -rf "$d"
