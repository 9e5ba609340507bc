"""Development aid: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
f = os.path.join(ROOT, 'tools', 'plants_history.json')
if os.path.exists(f):
    MISSED = json.load(open(f))
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    p = os.path.join(ROOT, 'seeded', d, 'meta.json')
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((m['property'], d, m['what_it_breaks'], m['needs'], MISSED.get(d, 'at once')))
rows.sort()
t = ['<!-- planted -->', '', '| property | planted bug | what it breaks | needs | caught by its check |', '|---|---|---|---|---|']
t += ['| ' + ' | '.join(x.replace('|', '/') for x in r) + ' |' for r in rows]
t += ['', '<!-- /planted -->']
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = s.replace('@@PLANTED@@', '<!-- planted -->\n<!-- /planted -->')
s = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda _: '\n'.join(t), s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
