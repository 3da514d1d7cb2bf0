"""Writes MANIFEST.json from harness/plans.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plans import PLANS

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, rest = [], []
for p in props:
    i = p['id']
    if i in PLANS:
        checks.append(dict(
            property=i, quick_cmd='./run.py %s' % i, thorough_cmd='./run.py %s --thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=PLANS[i].get('technique', 'TLA+ model checked with TLC; calls of the real library recorded and '
                                   'validated against the model by TLC trace checking'),
            level='model_checking',
            level_note=PLANS[i].get('note', 'Every recorded call of the real library is compared by TLC with the outcome the TLA+ '
                                    'model prescribes; the model itself is checked exhaustively on bounded instances. Inputs are '
                                    'generated from a seed, so inputs outside the generated space are not covered. Trusted: TLC, the '
                                    'recording harness, and results of Python\'s own conversions passed to the model as facts.')))
    else:
        rest.append(dict(property=i, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=rest,
         notes='Checks run /repo directly with /opt/venv-pypy/bin/python and java (TLC); nothing needs building. '
               'run.py --replay FILE re-runs a reported case.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
