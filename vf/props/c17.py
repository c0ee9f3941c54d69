"""Earth velocity is the exact time derivative of the position the code computes."""
from .epv import *
TRUSTED = [LIBMT]
BATCH = 24; MAXBATCH = 100; SAMPLE = 5

def prove(c):
    a, b = var('a', 'f'), var('b', 'f')
    r, ex = c.run(EPV, [[a, b]])
    for name, first, _, tol in SPLITS:
        I = Ideal(); T = domain(I, first)
        for nm in ('heliocentric', 'barycentric'):
            P = I.eval(r[nm]['p']); W = I.eval(r[nm]['v'])
            for k in range(3):
                d, e = I.deriv(P[k].p, T)
                c.ideal('ensures %s velocity %s = d/dt of the position expression [%s]' % (nm, 'xyz'[k], name), I, W[k], pscale(d, 1 / YEAR), tol, extra=e / 365.25)

def cases(rng, n, k): return [('epv_fd', [a, b]) for a, b in dates(rng, n, 36500) if a in (2451545.0, 2400000.5)]

def judge(case, out):
    a, b = case[1]
    if out[0] != 'ok': return 'expected a velocity'
    o = out[1]     # heliocentric p, v, barycentric p, v, finite-difference derivatives
    (hp, hv), (bp, bv) = oracle(a, b); tp, tv = tols(a, b)
    same_pos = all(abs(mpmath.mpf(x) - y) < 3e-13 for x, y in zip(list(o[0:3]) + list(o[6:9]), hp + bp))
    for nm, p, v, wp, wv, fd in (('heliocentric', o[0:3], o[3:6], hp, hv, o[12:15]), ('barycentric', o[6:9], o[9:12], bp, bv, o[15:18])):
        for k in range(3):
            if not math.isfinite(v[k]): return 'velocity is not finite'
            d = abs(mpmath.mpf(v[k]) - wv[k])
            if same_pos and d > tv: return '%s velocity %s differs from the derivative of the position by %s au/day' % (nm, 'xyz'[k], mpmath.nstr(d, 4))
            if abs(v[k] - fd[k]) > 3e-12: return '%s velocity %s = %r but the position changes at %r au/day' % (nm, 'xyz'[k], v[k], fd[k])
