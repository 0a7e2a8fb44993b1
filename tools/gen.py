#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from properties_src.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties_src import PROPS  # noqa: E402

built = {f[:3].upper() for f in os.listdir(os.path.join(VERIF, 'props'))
         if f.startswith('p') and f.endswith('.py')}
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                               'why_tests_cant', 'anchors')}
        fh.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in built:
        checks.append({
            'property': p['id'],
            'quick_cmd': './check.sh %s quick' % p['id'],
            'thorough_cmd': './check.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: ' + p['technique'],
            'level': 'exploration',
            'level_note': p['note'] + ' Exploration only: absence of a '
            'counterexample in the generated cases, not a proof.'})
    else:
        na.append({'property': p['id'],
                   'reason': 'check not built yet (work in progress)'})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: every check imports leap_ec straight from '
              '/repo\'s working tree (PYTHONPATH), nothing is cached. No '
              'hooks in /repo; all commits there are "fix:" repairs, listed '
              'in known_findings.txt.'}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not built')
