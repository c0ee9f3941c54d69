#!/usr/bin/env python3
"""Rewrites the bug table at the marker in DESIGN.md."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    f = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', open(d + '/patch.diff').read(), re.M)))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), ', '.join(os.path.basename(x) for x in f), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
t = '| bug | file | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
p = R + '/DESIGN.md'; s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
