"""Earth position equals the SOFA EPV00 series."""
from .epv import *
TRUSTED = [LIBMT, 'spec/epv00.json transcribes SOFA epv00.for']
BATCH = 24; MAXBATCH = 100; SAMPLE = 5

def prove(c):
    a, b = var('a', 'f'), var('b', 'f')
    r, ex = c.run(EPV, [[a, b]])
    c.record('no panic reachable', 'vc-generator', all(o.cond is True for o in ex.obls) or not ex.obls, 0, [o.where for o in ex.obls][:3] or None)
    for name, first, tol, _ in SPLITS:
        I = Ideal(); T = domain(I, first)
        h, bary = spec_positions(I, T)
        out = I.eval(r['heliocentric']['p'] + r['barycentric']['p'])
        for k in range(3): c.ideal('ensures heliocentric %s = EPV00 series [%s]' % ('xyz'[k], name), I, out[k], h[k], tol)
        for k in range(3): c.ideal('ensures barycentric %s = EPV00 series [%s]' % ('xyz'[k], name), I, out[3 + k], bary[k], tol)

def cases(rng, n, k): return [('epv', [a, b]) for a, b in dates(rng, n)]

def judge(case, out):
    a, b = case[1]
    if out[0] != 'ok': return 'expected a position'
    (hp, _), (bp, _) = oracle(a, b); tol = tols(a, b)[0]
    for nm, got, want in (('heliocentric', out[1][0:3], hp), ('barycentric', out[1][6:9], bp)):
        for k in range(3):
            d = abs(mpmath.mpf(got[k]) - want[k]) if math.isfinite(got[k]) else mpmath.inf
            if d > tol: return '%s %s differs from the EPV00 series by %s au' % (nm, 'xyz'[k], mpmath.nstr(d, 4))
