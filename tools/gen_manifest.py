#!/usr/bin/env python3
"""Write MANIFEST.json from the property table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from hrmsa.props import PROPS, NA

ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl') if l.strip()]
NOTE = ('Decided from the current source without running it. A mismatch is only a violation when the analysis can '
        'exhibit it in terms it fully understands; anything it cannot decide is reported as undetermined in the '
        'evidence and does not alarm.')
checks, na = [], []
for p in ids:
    if p in PROPS:
        t = PROPS[p]
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py %s --tier quick' % p,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
            'technique': t.get('technique', 'static analysis: abstract interpretation of the source to canonical '
                               'values, compared with reference functions'),
            'level': 'other',
            'level_note': t.get('note', NOTE)})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not decided yet by this machinery')})
json.dump({'version': 1, 'setup_cmd': 'bash extractor/build.sh', 'checks': checks, 'not_applicable': na},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
