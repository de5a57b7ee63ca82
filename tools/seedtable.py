"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | what it breaks | needs |', '|--|--|--|--|']
ms = []
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    ms.append((d['property'], os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs']))
for p, n, w, k in sorted(ms):
    rows.append('| %s | %s | %s | %s |' % (n, p, w.replace('|', '\\|').replace('\n', ' '), k.replace('|', '\\|').replace('\n', ' ')))
s = open(V + '/DESIGN.md').read()
s = re.sub('<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
