"""Geodetic coordinates map to the point at that height along the ellipsoid normal."""
import mpmath, z3
from ..core import *
from ..exact import *
from .c13 import ps
NEW = 'tofas::ellipsoid::EllipsoidConverter::new'
G2G = 'tofas::ellipsoid::EllipsoidConverter::geodetic_to_geocentric'
ZEN = 'tofas::ellipsoid::Geodetic::zenith'
TRUSTED = ['libm sin and cos are within 2^-52 of the exact value and in [-1,1] for every finite argument']
TIERS = ((Q(1, 100), 2.0**-45), (Q(9, 10), 1e-10))     # largest flattening, relative tolerance
TZ = 1e-15

def domain(FMAX):
    """-> domain, exact point (three polynomials), normal, symbols"""
    E = Exact()
    a, h = E.sym('a', 1, 1e9, scale=True), E.sym('h', -1e12, 1e12, scale=True)
    f = E.sym('f', 0, float(FMAX))
    for n, i in (('a', a), ('h', h), ('f', f)): E.input(n, E.syms[i][1], E.syms[i][2], poly=ps(E, i))
    p_, sp, cp = E.angle('phi'); l_, sl, cl = E.angle('elong')
    E.input('phi', -1e300, 1e300, poly=ps(E, p_)); E.input('elong', -1e300, 1e300, poly=ps(E, l_))
    lo = float(1 - FMAX)
    G, v = E.sym('G', lo, 1), E.sym('1/G', 1, 1 / lo)
    g2 = padd(pconst(1), padd({(sp, sp, f): Q(2)}, {(sp, sp, f, f): Q(1)}, -1), -1)   # cos^2 + (1-f)^2 sin^2
    g2 = {tuple(sorted(m)): k for m, k in g2.items()}
    E.rule((G, v), pconst(1)); E.rule((G, G), g2)
    E.roots.append((ps(E, G), lo)); E.invs.append((ps(E, G), ps(E, v)))
    b2 = {(): Q(1), (f,): Q(-2), (f, f): Q(1)}
    E.known += [(g2, lo * lo, 1.0), (b2, lo * lo, 1.0)]
    E.roots.append(({(): Q(1), (f,): Q(-1)}, lo))
    n = [pmul(ps(E, cp), ps(E, cl)), pmul(ps(E, cp), ps(E, sl)), ps(E, sp)]
    av = {tuple(sorted((a, v))): Q(1)}
    p0 = [pmul(av, n[0]), pmul(av, n[1]), pmul(pmul(av, b2), n[2])]
    pt = [padd(q, pmul(ps(E, h), m)) for q, m in zip(p0, n)]
    return E, pt, n, p0, g2, b2, (a, f, sp, cp, sl, cl, G, v, h)

def prove(c):
    V = {n: var(n, 'f') for n in ('a', 'f', 'elong', 'phi', 'h')}
    for FMAX, TOL in TIERS: prove1(c, V, FMAX, TOL, ' [flattening up to %s]' % FMAX)

def prove1(c, V, FMAX, TOL, tag):
    E, pt, n, p0, g2, b2, (a, f, sp, cp, sl, cl, G, v, h) = domain(FMAX)
    t = time.time()
    # lemmas: the exact point lies on the ellipsoid, with outward normal n
    c.record('lemma: G^2 = cos^2 lat + (1-f)^2 sin^2 lat', BE_EXACT, E.zero(padd(padd({(cp, cp): Q(1)}, pmul(b2, {(sp, sp): Q(1)})), {(G, G): Q(1)}, -1)))
    # (x^2+y^2)(1-f)^2 + z^2 = a^2 (1-f)^2, multiplied by G^2 (nonzero)
    q = [pmul(x, ps(E, G)) for x in p0]
    s = padd(pmul(padd(pmul(q[0], q[0]), pmul(q[1], q[1])), b2), pmul(q[2], q[2]))
    c.record('lemma: the foot point satisfies the equation of the ellipsoid', BE_EXACT, E.zero(padd(s, pmul(pmul(b2, {(a, a): Q(1)}), {(G, G): Q(1)}), -1)))
    # gradient (x(1-f)^2, y(1-f)^2, z) = a (1-f)^2 / G * normal, a positive multiple
    for k, (x, m) in enumerate(zip(p0, n)):
        g = pmul(x, b2) if k < 2 else x
        c.record('lemma: gradient component %d is a positive multiple of the normal' % k, BE_EXACT, E.zero(padd(g, pmul(pmul(pmul({(a,): Q(1)}, {(v,): Q(1)}), b2), m), -1)))
    F, S2 = z3.Reals('f s2')
    sv = z3.Solver(); sv.set('timeout', 60000); sv.add(F >= 0, F <= z3.RealVal(str(FMAX)), S2 >= 0, S2 <= 1)
    sv.add(z3.Not(z3.And(1 - S2 + (1 - F) * (1 - F) * S2 >= z3.RealVal(str((1 - FMAX)**2)), 1 - S2 + (1 - F) * (1 - F) * S2 <= 1, (1 - F) * (1 - F) >= z3.RealVal(str((1 - FMAX)**2)), (1 - F) * (1 - F) <= 1)))
    t = time.time(); r = str(sv.check()); c.record('lemma: 1-f <= G <= 1', 'z3', r == 'unsat', time.time() - t, None if r == 'unsat' else r)
    # the code
    r, ex = c.run(NEW, [V['a'], V['f']])
    ok = i_cmp('eq', r.discr, r.names.index('Ok'))
    c.no_panic('EllipsoidConverter::new', E, ex)
    c.record('requires: the converter is built for every radius in [1,1e9]' + tag, BE_EXACT, E.holds(ok))
    conv = r.v['Ok'][0]
    r, ex = c.run(G2G, conv, {'elong': V['elong'], 'phi': V['phi'], 'height': V['h']})
    c.no_panic('geodetic_to_geocentric', E, ex)
    ok = i_cmp('eq', r.discr, r.names.index('Ok'))
    c.record('ensures the conversion succeeds' + tag, BE_EXACT, E.holds(ok), 0, 'condition ' + show(ok, 3))
    tol = {(a,): TOL, (h,): TOL, (): 1e-300}
    got = leaves(r.v['Ok'][0])
    if len(got) != 3: raise Unsupported('three coordinates expected')
    for i, g in enumerate(got):
        c.exact('ensures geocentric %s = foot point + height * normal to %.3g (a + |h|)%s' % ('xyz'[i], TOL, tag), E, lambda: E.eval([g])[0], pt[i], tol)
    r, ex = c.run(ZEN, {'elong': V['elong'], 'phi': V['phi'], 'height': V['h']})
    c.no_panic('zenith', E, ex)
    for i, g in enumerate(leaves(r)):
        c.exact('ensures zenith %s = normal' % 'xyz'[i], E, lambda: E.eval([g])[0], n[i], {(): TZ})

def cases(rng, n, k):
    out = []
    for _ in range(n):
        a = rng.choice([6378137.0, 1.0, 1e9, 10.0**rng.uniform(0, 9)]); f = rng.choice([0.0, 1 / 298.257223563, .5, rng.random() * .9])
        ang = lambda: rng.choice([rng.uniform(-4, 4), rng.uniform(-4, 4), rng.randint(-8, 8) * math.pi / 4, rng.uniform(-1, 1) * 10.0**rng.randint(-12, 9), 0.0])
        h = rng.choice([0.0, rng.uniform(-1e4, 1e4), rng.uniform(-1, 1) * 10.0**rng.randint(0, 12)])
        if rng.random() < .2: out.append(('zenith', [ang(), ang(), h]))
        else: out.append(('gd2gc', [a, f, ang(), ang(), h]))
    return out
def judge(case, out):
    o, a = case
    if out[0] != 'ok': return 'expected success'
    mp = mpmath.mp.clone(); mp.dps = 50
    x = [mp.mpf(z) for z in a]
    if o == 'zenith': A, f, l, p, h = mp.mpf(0), mp.mpf(0), x[0], x[1], mp.mpf(1); tol = TZ
    else: A, f, l, p, h = x; tol = next(t for m, t in TIERS if f <= mp.mpf(m.numerator) / m.denominator) * (A + abs(h))
    v = 1 / mp.sqrt(mp.cos(p)**2 + (1 - f)**2 * mp.sin(p)**2)
    w = [(A * v + h) * mp.cos(p) * mp.cos(l), (A * v + h) * mp.cos(p) * mp.sin(l), ((1 - f)**2 * A * v + h) * mp.sin(p)]
    for i in range(3):
        if not abs(out[1][i] - w[i]) <= tol: return '%s off by %s' % ('xyz'[i], mp.nstr(out[1][i] - w[i], 4))
