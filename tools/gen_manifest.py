#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and targets.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from targets import TARGETS
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for p in P:
    if p['id'] in TARGETS and not p['na']:
        checks.append(dict(property=p['id'], quick_cmd=f'python3 run.py {p["id"]}', thorough_cmd=f'python3 run.py {p["id"]} --thorough',
                           technique=p['technique'], level='model_checking', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'No check has been built for this property (yet), so it is not claimed.'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks compile the unmodified sources of /repo (see DESIGN.md).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
