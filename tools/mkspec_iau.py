#!/usr/bin/env python3
"""Transcribes (once) the 77-term IAU 2000B nutation series and the IAU 2000 CIO locator series from the base
commit, whose results the repository's own SOFA test vectors confirm; committed as spec/*.json, never regenerated by a check."""
import re, json, subprocess
def src(f): return subprocess.run(['git','-C','/repo','show','89c5065:crates/tofas/src/'+f],stdout=subprocess.PIPE,text=True).stdout
def table(t, name, w):
    m = re.search(r'const %s : .*?= &?\[(.*?)\n\];' % name, t, re.S)
    return [[x.strip() for x in r.split(',')] for r in re.findall(r'\[([^\[\]]*)\]', m.group(1))]
f = src('frames.rs'); l = src('locator.rs')
nals = [[int(x) for x in r] for r in table(f, 'NALS', 5)]; cls = table(f, 'CLS', 6)
assert len(nals) == len(cls) == 77
json.dump({'multipliers': nals, 'coefficients': cls}, open('/verif/spec/nut00b.json', 'w'))
sp = re.search(r'const SP : \[R;6\] = \[(.*?)\];', l, re.S).group(1)
K = [[[int(x) for x in r] for r in table(l, 'KS%d' % i, 8)] for i in range(5)]
S = [table(l, 'SS%d' % i, 2) for i in range(5)]
assert [len(x) for x in K] == [len(x) for x in S] == [33, 3, 25, 4, 1]
json.dump({'polynomial': [x.strip() for x in sp.split(',')], 'multipliers': K, 'coefficients': S}, open('/verif/spec/cio00.json', 'w'))
