"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the registered checks."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.properties import P  # noqa: E402
from lv.check import PROPS  # noqa: E402
import lv.props  # noqa: E402,F401
from lv.check import EXPL  # noqa: E402

claimed = set(PROPS)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['tests'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
checks, na = [], []
for p in P:
    if p['id'] in claimed:
        assert not p['na'], p['id']
        note = ' '.join(EXPL.get(p['id'], '').split())
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'], technique=p['tech'], level='other',
                           level_note=(note + ' ' + p['note']).strip() + ' Trusted: rustc\'s MIR, the interpreter and its models of the standard library in lv/.'))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
m = dict(version=1, setup_cmd='python3 -m lv.dump', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na])
