#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (after its last heading)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = VERIF + '/DESIGN.md'
text = open(path).read()
mark = '## Planted bugs\n'
head = text[:text.index(mark)] if mark in text else \
    text.replace('SEEDED_TABLE', '').rstrip() + '\n\n'
rows = []
for i in sorted(os.listdir(VERIF + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (VERIF, i)))
    rows.append((m['property'], i, ' '.join(m['needs'].split()),
                 ' '.join(m['what_it_breaks'].split())))
out = [mark, '\nEach one (`seeded/`) is confirmed by `tools/plant.py`: it '
       'applies, builds, passes the\nstable tests, fails its demonstration, '
       'and the check in the first column reports it.\n\n',
       '| check | planted bug | manifests with | breaks |\n|-|-|-|-|\n']
for r in sorted(rows):
    out.append('| %s | %s | %s | %s |\n' % r)
open(path, 'w').write(head + ''.join(out))
print(len(rows), 'planted bugs')
