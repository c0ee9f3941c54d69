"""CIO locator and fundamental arguments follow the IERS 2003 expressions."""
from .iau import *
from .c14 import pc
TRUSTED = [LIBMT, 'spec/cio00.json is the published IAU 2000 series of the CIO locator']
BATCH = 100; MAXBATCH = 1000; SAMPLE = 4
TOL = 1e-15
def ftol(n): return 1e-14 if n == 'pa03' else 2e-11

def prove(c):
    a, b, x, y = var('a', 'f'), var('b', 'f'), var('x', 'f'), var('y', 'f')
    r, ex = c.run('tofas::locator::cio', [[a, b]], x, y); pc(c, ex, 'cio')
    for name, first in SPLIT3:
        I = Ideal(); T = domain(I, first, 2, CENT); A = PolyAlg(I); t = {(T,): Q(1)}
        p = []
        for v in ('x', 'y'):
            s = I.sym(v, -.1, .1); I.input(v, {(s,): Q(1)}, -.1, .1); p.append({(s,): Q(1)})
        want = cio(A, t, *p)
        c.ideal('ensures CIO locator = IAU 2000 series - xy/2 [%s]' % name, I, I.eval([r])[0], want, TOL)
    t_ = var('t', 'f')
    for n in FNAMES:
        r, ex = c.run('tofas::fundargs::' + n, t_); pc(c, ex, n)
        I = Ideal(); T = I.sym('T', -2, 2); I.input('t', {(T,): Q(1)}, -2, 2); A = PolyAlg(I)
        c.ideal('ensures %s = IERS 2003 polynomial modulo one turn' % n, I, I.eval([r])[0], fund(A, {(T,): Q(1)}, n), ftol(n), turns=n != 'pa03')

def cases(rng, n, k):
    out = []
    for _ in range(n):
        x = rng.uniform(-73000, 73000); q = rng.randint(0, 4)
        if q == 0: a, b = 2451545.0, x
        elif q == 1: a, b = 2400000.5, x + 51544.5
        elif q == 2: a = rng.uniform(-5e5, 3e6); b = 2451545 + x - a
        if q < 3: out.append(('cio', [a, b, rng.uniform(-.1, .1), rng.uniform(-.1, .1)]))
        else: out.append((rng.choice(FNAMES), [rng.choice([rng.uniform(-2, 2), rng.uniform(-.3, .3), 0.0])]))
    return out

def judge(case, out):
    n, args = case
    if out[0] != 'ok': return 'expected a value'
    A = MpAlg(); g = A.mp.mpf(out[1][0])
    if n == 'cio':
        d = g - cio(A, tof(A, args[0], args[1]), A.c(Q(args[2])), A.c(Q(args[3]))); tol = TOL
    else:
        d = g - fund(A, A.c(Q(args[0])), n); tol = ftol(n)
        if n != 'pa03': d -= 2 * A.mp.pi * A.mp.nint(d / (2 * A.mp.pi))
    if not (abs(d) <= tol): return 'differs from the IERS expression by %s rad' % A.mp.nstr(d, 4)
