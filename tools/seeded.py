"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json and
tools/caught.json (id -> checks that report it, filled by hand after runs)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
rows = ['| id | property | what it breaks | needs | caught by |',
        '|----|----------|----------------|-------|-----------|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    k = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s | %s |' % (
        k, m['property'], m['what_it_breaks'], m['needs'],
        caught.get(k, 'not run')))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = s[:s.index('<!-- seeded -->')] + '<!-- seeded -->\n' \
    + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
