#!/usr/bin/env python3
"""Transcribes the series of SOFA epv00.for (coefficients as decimal strings) into spec/epv00.json.
The spec is committed; the checks never read the Fortran file."""
import re, json, sys
from fractions import Fraction as Q
src = open(sys.argv[1] if len(sys.argv) > 1 else '/repo/fortran/epv00.for').read()
lines = [l for l in src.split('\n') if not l[:1] in '*cC']
text = ''
for l in lines:
    if len(l) > 5 and l[:5].strip() == '' and l[5] not in ' 0': text += ' ' + l[6:]
    else: text += '\n' + l
P = {k: int(v) for k, v in re.findall(r'\b(N[ES]\d[XYZ])\s*=\s*(\d+)', text)}
tab = {}
for n, k, j0, j1, vals in re.findall(r'DATA \(\(([ES]\d)\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\w+)\) /([^/]*)/', text):
    v = [Q(x.strip().replace('D', 'E')) for x in vals.split(',')]
    j0 = int(j0); j1 = int(j1) if j1.isdigit() else P[j1]
    assert len(v) == 3 * (j1 - j0 + 1), (n, k, j0)
    t = tab.setdefault(n, {}).setdefault(int(k), {})
    for i in range(j1 - j0 + 1): t[j0 + i] = v[3*i:3*i+3]
out = {}
for n in tab:
    out[n] = []
    for k in (1, 2, 3):
        t = tab[n][k]; N = P['N' + n + 'XYZ'[k-1]]
        assert sorted(t) == list(range(1, N + 1)), (n, k)
        out[n].append([[str(x) for x in t[j]] for j in range(1, N + 1)])
am = {k: str(Q(v)) for k, v in re.findall(r'(AM\d\d) = ([+-][\d.]+)D0', text)}
json.dump({'series': out, 'matrix': am}, open('/verif/spec/epv00.json', 'w'), separators=(',', ':'))
print({n: [len(x) for x in out[n]] for n in out}, am)
