"""Assembles DESIGN.md: doc/head.md, the table of properties, doc/tail.md and the table of planted bugs (doc/caught.json)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from plans import PLANS

D = json.load(open(os.path.join(ROOT, 'doc', 'methods.json')))
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
out = ['## 4. Per property', '', 'Every property is decided by trace validation against the operators named; none is left to another technique. '
       'Cases per run: quick / thorough. A case is a schema (or a history) with several calls. Cost: 15-60 s per quick check on 8 cores, '
       '10-40 minutes thorough.', '', '| id | property | decided by | explored | cases |', '|---|---|---|---|---|']
for p in props:
    k = p['id']
    v = PLANS[k]
    how, what = D[k]
    if v.get('mc'):
        what += '; bounded models: ' + ', '.join(m['module'] for m in v['mc'])
    out.append('| %s | %s | %s | %s | %d / %d |' % (k, p['title'], how, what, v['quick'], v['thorough']))
caught = json.load(open(os.path.join(ROOT, 'doc', 'caught.json')))
rows = ['| bug | property | result | first complaint |', '|---|---|---|---|']
for k in sorted(caught):
    rows.append('| %s | %s | %s | %s |' % (k, caught[k][0], caught[k][1], caught[k][2].replace('|', '\\|').strip()[:70]))
head = open(os.path.join(ROOT, 'doc', 'head.md')).read()
tail = open(os.path.join(ROOT, 'doc', 'tail.md')).read()
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(head + '\n'.join(out) + '\n\n' + tail + '\n'.join(rows) + '\n')
