"""Every frame matrix is a proper rotation."""
import mpmath
from .rot import *
from .epv import domain
from .iau import CENT
TRUSTED = [LIBMT]
TOL = 1e-11
BIG = 1e300
UNIT = 1 - Q(1, 10**15)

def dates(I):
    domain(I, None, 2, CENT)

def prove(c):
    import z3
    from ..z3be import rv
    a, b, d, e = (var(n, 'f') for n in ('a', 'b', 'u1', 'u2'))
    x, y, s = (var(n, 'f') for n in 'xys')
    # elementary rotations, polar motion, nutation: any finite angles
    for k in range(3):
        r, ex = c.run(ROT, k, x); no_panic(c, 'rotation', ex)
        finite_z3(c, 'rotation about axis %d' % k, rotation(c, 'rotation about axis %d' % k, r, TOL), {'x': (-BIG, BIG)})
    for n, nm in ((POM, 'polar_motion_matrix'), (F + 'nutation_matrix', 'nutation_matrix')):
        r, ex = c.run(n, x, y, s); no_panic(c, nm, ex)
        finite_z3(c, nm, rotation(c, nm, r, TOL), {n: (-BIG, BIG) for n in 'xys'})
    # frame bias, precession, both; precession-nutation
    r, ex = c.run(F + 'bias_and_precession', [[a, b]]); no_panic(c, 'bias_and_precession', ex)
    args = {}
    for m, nm in zip(r, ('frame bias', 'precession', 'bias-precession')):
        for q in rotation(c, nm + ' matrix', m, TOL): args[q.id] = q
    r, ex = c.run(F + 'precession_nutation', [[a, b]]); no_panic(c, 'precession_nutation', ex)
    for q in rotation(c, 'precession-nutation matrix', r, TOL): args[q.id] = q
    finite_ideal(c, 'precession and nutation, 1800-2200', list(args.values()), dates)
    pole = r[2][0], r[2][1]
    # celestial-to-intermediate, any pole in the disc and any locator
    disc = lambda Zi: [Zi.t(x).v * Zi.t(x).v + Zi.t(y).v * Zi.t(y).v <= rv(UNIT)]
    r, ex = c.run(XYS, x, y, s); no_panic(c, 'celestial_to_intermediate_from_xys', ex)
    xys = leaves(r)
    ang = rotation(c, 'celestial_to_intermediate_from_xys', r, TOL)
    fin = finite_z3(c, 'celestial_to_intermediate_from_xys, x^2+y^2 <= 1-1e-15', ang, {'x': (-1, 1), 'y': (-1, 1), 's': (-BIG / 2, BIG / 2)}, disc)
    done = {q.id for q in ang} if fin else ()
    # date-driven: the pole and the locator meet the precondition just used
    loc, ex = c.run('tofas::locator::cio', [[a, b]], x, y); no_panic(c, 'locator::cio', ex)
    def datesxy(I):
        dates(I)
        for n in 'xy': i = I.sym(n, -.1, .1); I.input(n, {(i,): Q(1)}, -.1, .1)
    finite_ideal(c, 'locator, 1800-2200, pole within 0.1', [loc], datesxy)
    I = Ideal(); dates(I); t = time.time()
    for n, p in zip('xy', pole):
        try: v = I.eval([p])[0]; ok, txt = max(-v.lo, v.hi) <= .1, 'in [%.3g, %.3g]' % (v.lo, v.hi)
        except Unsupported as e_: ok, txt = False, str(e_)
        c.record('ensures the pole coordinate %s of the precession-nutation matrix is within 0.1, 1800-2200' % n, BE_IDEAL, ok, time.time() - t, txt); t = time.time()
    gx, gy = pole
    def abstract(ts):
        """the code with the pole and the locator replaced by variables"""
        q = subst(ts, {gx.id: x, gy.id: y})
        return subst(q, {loc.id: s}) if is_t(loc) else q
    bounds = {'x': (-.1, .1), 'y': (-.1, .1), 's': (-1e3, 1e3), 'u1': (-3e6, 3e6), 'u2': (-3e6, 3e6), 'xp': (-BIG, BIG), 'yp': (-BIG, BIG)}
    r, ex = c.run(F + 'celestial_to_intermediate', [[a, b]]); no_panic(c, 'celestial_to_intermediate', ex)
    finite_z3(c, 'celestial_to_intermediate', rotation(c, 'celestial_to_intermediate', abstract(leaves(r)), TOL), bounds, done=done)
    r, ex = c.run(F + 'celestial_to_intermediate_with_bpn_and_xy', [[a, b]], x, y); no_panic(c, 'celestial_to_intermediate_with_bpn_and_xy', ex)
    finite_z3(c, 'celestial_to_intermediate_with_bpn_and_xy', rotation(c, 'celestial_to_intermediate_with_bpn_and_xy', abstract(leaves(r)), TOL), bounds, done=done)
    r, ex = c.run(F + 'celestial_to_terrestrial', [[a, b]], [[d, e]], var('xp', 'f'), var('yp', 'f')); no_panic(c, 'celestial_to_terrestrial', ex)
    finite_z3(c, 'celestial_to_terrestrial', rotation(c, 'celestial_to_terrestrial', abstract(leaves(r)), TOL), bounds, done=done)

def date(rng):
    z = rng.uniform(-73000, 73000); q = rng.randint(0, 2)
    if q == 0: return [2451545.0, z]
    if q == 1: return [2400000.5, z + 51544.5]
    a = rng.uniform(-5e5, 3e6); return [a, 2451545 + z - a]
def disc(rng):
    q = rng.randint(0, 5)
    if q == 0: return [0.0, 0.0]
    r = math.sqrt(rng.random()) if q < 3 else 10.0**rng.uniform(-14, -.01) if q < 4 else rng.choice([1e-8, 1e-160, 1e-310, 1 - 1e-9, 1e-3, 1 - 1e-6])
    t = rng.choice([rng.uniform(-4, 4), rng.randint(-4, 4) * math.pi / 4])
    x, y = r * math.cos(t), r * math.sin(t)
    return [x, y] if Q(x)**2 + Q(y)**2 <= UNIT else [0.5, 0.5]
def ang(rng): return rng.choice([0.0, rng.uniform(-7, 7), rng.uniform(-7, 7), rng.uniform(-1, 1) * 1e-6, rng.uniform(-1, 1) * 10.0**rng.randint(0, 9)])
def cases(rng, n, k):
    out = []
    for _ in range(n):
        o = rng.choice(['mrotation', 'pom', 'nutation_matrix', 'bias_and_precession', 'precession_nutation', 'c2i_xys', 'c2i_xy', 'c2i', 'c2t'])
        a = {'mrotation': lambda: [rng.randint(0, 2), ang(rng)], 'pom': lambda: [ang(rng) for _ in range(3)], 'nutation_matrix': lambda: [ang(rng) for _ in range(3)],
             'c2i_xys': lambda: disc(rng) + [ang(rng)], 'c2i_xy': lambda: date(rng) + [rng.uniform(-.1, .1), rng.uniform(-.1, .1)],
             'c2t': lambda: date(rng) + date(rng) + [ang(rng), ang(rng)]}.get(o, lambda: date(rng))()
        out.append((o, a))
    return out
def judge(case, out):
    if out[0] != 'ok': return 'expected a matrix'
    if any(not math.isfinite(g) for g in out[1]): return 'not finite'
    for k in range(0, len(out[1]), 9):
        R = [[Q(g) for g in out[1][k+3*i:k+3*i+3]] for i in range(3)]
        for i in range(3):
            for j in range(3):
                d = sum(R[i][l] * R[j][l] for l in range(3)) - (i == j)
                if abs(d) > TOL: return 'rows %d and %d: R R^T - I = %.3g' % (i, j, float(d))
        d = sum(R[0][i] * (R[1][(i+1) % 3] * R[2][(i+2) % 3] - R[1][(i+2) % 3] * R[2][(i+1) % 3]) for i in range(3))
        if abs(d - 1) > TOL: return 'determinant %.6g' % float(d)
