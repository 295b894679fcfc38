#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties.py (the properties and their checks)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
from properties import PROPS, NA  # noqa: E402
from sa import core, rules  # noqa: E402,F401

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech']},
        }) + '\n')

checks, na = [], [{'property': i, 'reason': r} for i, r in NA]
ids = {i for i, _ in NA}
for p in PROPS:
    if p['id'] in core.RULES:
        assert p['id'] not in ids
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': 'other',
            'level_note': p['note'],
        })
    else:
        assert p['id'] in ids, p['id']
assert set(core.RULES) <= {p['id'] for p in PROPS}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
