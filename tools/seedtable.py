#!/usr/bin/env python3
"""(development only) writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the file given (output of sweep.py)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"\('?(c\d\d-[\w-]+)|^(c\d\d-[\w-]+)", line)
        if m:
            res[m.group(1) or m.group(2)] = 'caught' if 'caught' in line else 'missed'
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
head = t[:t.index('## Planted bugs')]
body = '''## Planted bugs

`seeded/`: each breaks one property while compiling and passing all 190 tests; validated by `tools/plant.py` in scratch copies,
checked by `tools/sweep.py` (quick check of the bug's property, VERIF_SEED=1).

| bug | what it breaks | needs | own check |
|---|---|---|---|
'''
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    body += '| %s | %s | %s | %s %s |\n' % (i, m['what_it_breaks'], m['needs'], m['property'], res.get(i, '?'))
open(p, 'w').write(head + body)
