#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
rows = []
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
head = '| bug | property | what it breaks | what it needs |\n|---|---|---|---|\n'
s = re.sub(re.escape(head) + r'(\|.*\n)+', lambda _: head + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
