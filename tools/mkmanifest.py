#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CLAIMS = {}
def claim(ids, technique, note):
    for i in ids:
        CLAIMS[i] = (technique, note)
exec(open(os.path.join(HERE, 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append(dict(property=p,
            quick_cmd='/opt/venv/bin/python harness/check.py %s quick' % p,
            thorough_cmd='/opt/venv/bin/python harness/check.py %s thorough' % p,
            evidence_file='evidence/%s.json' % p, technique=t,
            level='model_checking', level_note=n))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/, checked with TLC; conformance drivers in harness/. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
