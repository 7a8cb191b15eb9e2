#!/usr/bin/env python3
"""write MANIFEST.json from the property list and the property modules present"""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    mod = os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')
    if not os.path.exists(mod):
        missing.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    src = open(mod).read()
    tech = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M)
    note = re.search(r"^NOTE = '(.*)'$", src, re.M)
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': tech.group(1) if tech else 'property-based testing (Hypothesis), generated inputs against an explicit oracle',
        'level': 'exploration',
        'level_note': (note.group(1) + ' ' if note else '') + 'Generated-input search: violations are real and replayable, absence is not proved. '
                      'Trusts the oracle in harness/ and the input domain described in DESIGN.md.',
    })
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
           'notes': 'No hooks: every check drives the unmodified public API of the package imported from /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'missing')
