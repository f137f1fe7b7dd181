#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the
checks present."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                               'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
checks, na = [], []
for p in PROPS:
    pid = p['id']
    if pid in NOT_APPLICABLE:
        na.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
    elif not os.path.exists(os.path.join(H, 'checks', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'check not built yet'})
    else:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py ' + pid,
            'thorough_cmd': 'python3 check.py %s --thorough' % pid,
            'technique': p['technique'],
            'level': 'other',
            'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 -c "print(1)"', 'checks': checks,
     'not_applicable': na,
     'notes': 'Static analysis only: every check parses /repo/src on each run;'
     ' nothing of the package is executed. No hooks in /repo.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
