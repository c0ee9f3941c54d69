"""Degrees and radians denote the same position, normalised."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
FR = ['<tofas::ellipsoid::Geodetic360 as std::convert::From<&tofas::ellipsoid::Geodetic>>::from', '<tofas::ellipsoid::Geodetic360 as std::convert::From<tofas::ellipsoid::Geodetic>>::from']
TO = ['<tofas::ellipsoid::Geodetic as std::convert::From<&tofas::ellipsoid::Geodetic360>>::from', '<tofas::ellipsoid::Geodetic as std::convert::From<tofas::ellipsoid::Geodetic360>>::from']
PI = Q('3.14159265358979323846264338327950288419716939937510582097494')
R2D = 180 / PI
TOL = Q(1, 2**40)

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    B = 10**6
    e, p, h = var('e', 'f'), var('p', 'f'), var('h', 'f')
    dom = {'e': (-B, B), 'p': (-B, B), 'h': (None, None)}
    for fn, cmd in zip(FR, ('gd_to_360', 'gd_to_360v')):
        r, ex = c.run(fn, {'elong': e, 'phi': p, 'height': h})
        Zi = Z(landmarks=[180, -180, 90, -90, 360, math.nextafter(180.0, 0), math.nextafter(-180.0, 0)], domain=dom, gaps=True)
        E_, P_, H_ = Zi.t(e).v, Zi.t(p).v, Zi.t(h).v
        L, T, HH = Zi.t(r['lon']), Zi.t(r['lat']), Zi.t(r['height'])
        pick = lambda v, cmd=cmd: [(cmd, [float(v.get('e', 0)), float(v.get('p', 0)), float(v.get('h', 0))])]
        sp = atoms_of([r['lon'], r['lat']], 8)
        c.satisfiable(Zi, [], 'positions')
        c.z3_obls(Zi, ex, [], pick, timeout=100, split=sp)
        ks = [z3.ToReal(Zi.remk[x.id]) for x in subterms([r['lon']]) if x.op == 'frem']
        wit = [s + sg * k for k in ks + [z3.RealVal(0)] for s in (-1, 0, 1) for sg in (1, -1)]
        tol = rv(TOL) * (1 + zabs(E_))
        cong = z3.Or(*[z3.And(L.v - E_ * rv(R2D) + 360 * j <= tol, L.v - E_ * rv(R2D) + 360 * j >= -tol) for j in wit])
        tolp = rv(TOL) * (1 + zabs(P_))
        half = rv(Q(math.pi / 2))
        its = [('ensures longitude in [-180,180)', [], z3.And(z3.Not(zb(L.nan)), L.v >= -180, L.v < 180), pick),
               ('ensures latitude in [-90,90]', [], z3.And(z3.Not(zb(T.nan)), T.v >= -90, T.v <= 90), pick),
               ('ensures height kept', [], HH.v == H_, pick),
               ('ensures longitude congruent modulo 360 degrees', [], cong, pick),
               ('ensures latitude in degrees for |latitude| <= pi/2', [P_ <= half, P_ >= -half], z3.And(T.v - P_ * rv(R2D) <= tolp, T.v - P_ * rv(R2D) >= -tolp), pick)]
        c.z3(Zi, [(n + (' [by value]' if cmd.endswith('v') else ''),) + tuple(x) for n, *x in its], timeout=100, split=sp)
    for fn, cmd in zip(TO, ('gd_from_360', 'gd_from_360v')):
        r, ex = c.run(fn, {'lon': e, 'lat': p, 'height': h})
        Zi = Z(domain={'e': (-10**8, 10**8), 'p': (-10**8, 10**8), 'h': (None, None)})
        E_, P_, H_ = Zi.t(e).v, Zi.t(p).v, Zi.t(h).v
        L, T, HH = Zi.t(r['elong']), Zi.t(r['phi']), Zi.t(r['height'])
        pick = lambda v, cmd=cmd: [(cmd, [float(v.get('e', 0)), float(v.get('p', 0)), float(v.get('h', 0))])]
        c.z3_obls(Zi, ex, [], pick)
        near = lambda x, y: z3.And(z3.Not(zb(x.nan)), x.v - y * rv(1 / R2D) <= rv(TOL) * (1 + zabs(y)), x.v - y * rv(1 / R2D) >= -rv(TOL) * (1 + zabs(y)))
        sfx = ' [by value]' if cmd.endswith('v') else ''
        c.z3(Zi, [('ensures longitude * pi/180' + sfx, [], near(L, E_), pick), ('ensures latitude * pi/180' + sfx, [], near(T, P_), pick), ('ensures height kept (to radians)' + sfx, [], HH.v == H_, pick)])

def cases(rng, n, k):
    out = []
    def ang():
        q = rng.randint(0, 5)
        if q == 0: return rng.uniform(-7, 7)
        if q == 1: return math.pi / 2 * rng.randint(-8, 8)
        if q == 2: return math.nextafter(math.pi / 2 * rng.randint(-4, 4), rng.choice([-100.0, 100.0]))
        if q == 3: return rng.uniform(-1e6, 1e6)
        if q == 4: return rng.choice([0.0, -0.0, 5e-324, -5e-324, -1e-17])
        return rng.choice([-1, 1]) * 10.0**rng.uniform(-20, 6)
    for i in range(n):
        h = rng.choice([0.0, -0.0, 123.25, -11000.0, 1e308, rng.uniform(-1e6, 1e6)])
        if i % 3 < 2: out.append(('gd_to_360' + ('v' if i % 4 == 0 else ''), [ang(), ang(), h]))
        else: out.append(('gd_from_360' + ('v' if i % 4 == 0 else ''), [rng.choice([rng.uniform(-400, 400), 90.0 * rng.randint(-5, 5)]), rng.choice([rng.uniform(-100, 100), 90.0, -90.0, 0.0]), h]))
    return out

def judge(case, out):
    a, b, h = case[1]
    if out[0] != 'ok': return 'expected a position'
    x, y, hh = out[1]
    if bits(hh) != bits(h): return 'height changed'
    if case[0].startswith('gd_to'):
        if not (-180 <= x < 180): return 'longitude out of range'
        if not (-90 <= y <= 90): return 'latitude out of range'
        d = (Q(x) - Q(a) * R2D) / 360
        if abs(d - round(d)) * 360 > TOL * (1 + abs(Q(a))): return 'longitude is not congruent'
        if abs(b) <= math.pi / 2 and abs(Q(y) - Q(b) * R2D) > TOL * (1 + abs(Q(b))): return 'latitude is not %r degrees' % float(Q(b) * R2D)
    else:
        for v, w in ((x, a), (y, b)):
            if not math.isfinite(v) or abs(Q(v) - Q(w) / R2D) > TOL * (1 + abs(Q(w))): return 'expected %r' % float(Q(w) / R2D)
