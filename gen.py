#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py (run by hand after editing it)."""
import glob
import json
import os
from props import PROPS, NOT_APPLICABLE

here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], list(NOT_APPLICABLE)
with open(here + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(q) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        elif glob.glob('%s/sa/props/%s_*.py' % (here, p['id'])):
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                           'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the analyses read the headers as they are.'}, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
