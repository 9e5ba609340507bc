"""Writes /verif/MANIFEST.json from properties.jsonl and vf/checks."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vf import env  # noqa: E402

env.setup()
from vf import core  # noqa: E402

checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists(os.path.join(H, 'vf', 'checks', f'{i}.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    m = core.load(i)
    A = getattr(m, 'ASSUMPTIONS', None)
    checks.append({
        'property': i,
        'quick_cmd': f'./check {i} quick',
        'thorough_cmd': f'./check {i} thorough',
        'technique': getattr(m, 'TECHNIQUE', 'property-based testing '
                             '(Hypothesis) against an independent reference'),
        'level': 'exploration',
        'level_note': 'Generated-input search: ' + m.RULE + '. Shows no '
        'violation among the cases explored, proves nothing beyond them.'
        + (' Trusts/assumes: ' + '; '.join(A) + '.'
           if A else ''),
    })
json.dump({
    'version': 1,
    'setup_cmd': './check --selftest',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo. See DESIGN.md.',
}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
