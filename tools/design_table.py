"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(top, 'DESIGN.md')
s = open(p, encoding='utf-8').read()
head = s[:s.index('| id | breaks | needs |')]
rows = ['| id | breaks | needs |', '|---|---|---|']
for i in sorted(os.listdir(os.path.join(top, 'seeded'))):
    m = json.load(open(os.path.join(top, 'seeded', i, 'meta.json'), encoding='utf-8'))
    rows.append('| %s | %s | %s |' % (i, m['what_it_breaks'], m['needs']))
open(p, 'w', encoding='utf-8').write(head + '\n'.join(rows) + '\n')
