#!/bin/bash
# Builds the AST extractor and warms the dump of the current headers.
set -e
cd "$(dirname "$0")"
bash tool/build.sh
python3 - <<'P'
import sys
sys.path.insert(0, 'sa')
import lib
for c in ('release', 'debug'):
    print(c, len(lib.program(c).fn), 'functions')
P
