"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import props  # noqa: E402

checks, missing = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'technique': q.technique,
            'level': q.level,
            'level_note': q.note,
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        missing.append({'property': i, 'reason': 'its check is not built yet'})
json.dump({
    'version': 1,
    'setup_cmd': './setup',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in the code are needed: '
             'every observed step is the return of a public call.',
}, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(missing), 'missing')
