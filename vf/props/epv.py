"""Shared by C16 and C17: the Earth ephemeris over exact reals."""
import json
from ..core import *
from ..ideal import *
EPV = '<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from'
SPEC = json.load(open(os.path.join(ROOT, 'spec', 'epv00.json')))
YEAR = Q('365.25'); J0 = Q(2451545)
LIBMT = 'libm sin and cos are within 2^-52 of the exact value and in [-1,1]'
# (name, first part: None = any within 3e6 days, tolerance on position, tolerance on velocity)
SPLITS = [('first part 2451545', J0, 1e-12, 2e-14), ('first part 2400000.5', Q(2400000) + Q(1, 2), 2e-12, 5e-14), ('any split with parts up to 3e6 days', None, 5e-11, 1e-12)]

def domain(I, first, years=100, unit=YEAR, a='a', b='b', tsym='T', mjd=None):
    """inputs a, b: the two parts of a date T*unit days after J2000.0"""
    T = I.sym(tsym, -years, years)
    y = {(T,): unit, (): J0}
    if first is None:
        D = I.sym('d1', -3e6, 3e6)
        I.input(a, {(D,): Q(1)}, -3e6, 3e6); I.input(b, padd(y, {(D,): Q(1)}, -1), -3e6, 3e6)
    else:
        w = float(unit * years)
        f = float(first); off = float(J0 - first)
        I.input(a, pconst(first), f, f); I.input(b, padd(y, pconst(first), -1), off - w, off + w)
    return T

def series(I, T, names, k):
    p = {}; xT = {(T,): Q(1)}
    for n, deg in names:
        for A, B, C in SPEC['series'][n][k]:
            f = pscale(I.trig('cos', padd(pconst(Q(B)), pscale(xT, Q(C)))), Q(A))
            for _ in range(deg): f = pmul(f, xT)
            padd_in(p, f)
    return p

MAT = [[Q(1), Q(SPEC['matrix']['AM12']), Q(SPEC['matrix']['AM13'])], [Q(SPEC['matrix']['AM21']), Q(SPEC['matrix']['AM22']), Q(SPEC['matrix']['AM23'])], [Q(0), Q(SPEC['matrix']['AM32']), Q(SPEC['matrix']['AM33'])]]
def rotate(v): return [padd(padd(pscale(v[0], r[0]), pscale(v[1], r[1])), pscale(v[2], r[2])) for r in MAT]

def spec_positions(I, T):
    h = [series(I, T, [('E0', 0), ('E1', 1), ('E2', 2)], k) for k in range(3)]
    s = [series(I, T, [('S0', 0), ('S1', 1), ('S2', 2)], k) for k in range(3)]
    return rotate(h), rotate([padd(x, y) for x, y in zip(h, s)])

# ------------------------------------------------- oracle for the replay (50 digits)
_tab = None
def oracle(a, b):
    """(heliocentric, barycentric position, velocities) of the series, mpmath"""
    global _tab
    mp = mpmath.mp.clone(); mp.dps = 30
    if _tab is None:
        f = lambda x: mp.mpf(Q(x).numerator) / Q(x).denominator
        _tab = {n: [[tuple(map(f, r)) for r in t] for t in SPEC['series'][n]] for n in SPEC['series']}
    tq = (Q(a) + Q(b) - J0) / YEAR
    t = mp.mpf(tq.numerator) / tq.denominator
    out = []
    acc = [[mp.mpf(0)] * 3, [mp.mpf(0)] * 3]
    for grp in ('E', 'S'):
        for k in range(3):
            x = mp.mpf(0); v = mp.mpf(0)
            for A, B, C in _tab[grp + '0'][k]:
                c, s = mp.cos_sin(B + C * t); x += A * c; v -= A * C * s
            for A, B, C in _tab[grp + '1'][k]:
                c, s = mp.cos_sin(B + C * t); x += A * t * c; v += A * (c - C * t * s)
            for A, B, C in _tab[grp + '2'][k]:
                c, s = mp.cos_sin(B + C * t); x += A * t * t * c; v += A * t * (2 * c - C * t * s)
            acc[0][k] += x; acc[1][k] += v
        out.append([rot(acc[0]), [x / mp.mpf('365.25') for x in rot(acc[1])]])
    return out
def rot(v): return [sum((mpmath.mpf(m.numerator) / m.denominator) * x for m, x in zip(r, v)) for r in MAT]

def dates(rng, n, W=36524):
    out = []
    for _ in range(n):
        q = rng.randint(0, 3); x = rng.choice([0.0, rng.uniform(-W, W), rng.uniform(-W, W), float(rng.randint(-W, W))])
        if q <= 1: out.append((2451545.0, x))
        elif q == 2: out.append((2400000.5, x + 51544.5))
        else:
            a = rng.choice([float(x), rng.uniform(-5e5, 3e6), x + 2451545.0, round(x + 2451545.0) - 0.5])
            b = float(Q(2451545) + Q(x) - Q(a))
            if abs(Q(a) + Q(b) - J0) > W: continue
            out.append((a, b))
    return out
def tols(a, b):
    for name, first, tp, tv in SPLITS:
        if first is None or Q(a) == first: return tp, tv
