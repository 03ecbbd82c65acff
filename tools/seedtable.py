#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (section 7)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, s)))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], ' '.join(m['what_it_breaks'].split()).replace('|', '/'), ' '.join(m['needs'].split()).replace('|', '/')))
p = R + '/DESIGN.md'
t = open(p).read()
h = '## 7. Planted bugs\n'
i = t.index(h)
j = t.find('\n## ', i + 5)
body = h + """
Each was confirmed in a scratch copy: it builds, passes the stable tests, and its demonstration fails with it and passes without (`tools/plant.py`).
`tools/trybugs.py` runs the check of its property on a patched copy; every one below is caught by the check of its own property, with a failing
input or history replayed on the real code. (The table is written by `tools/seedtable.py`.) Those missed at first, and what was strengthened:
c07-zero-timeout (C07 only admitted positive timeouts), c20-extra-after (extra headers were not part of the C20 goal), and six that were reported
without a failing input until the harnesses covered the history they need.

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open(p, 'w').write(t[:i] + body + (t[j:] if j > 0 else ''))
