"""EarthPosVel: the date-out-of-range warning."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
EPV = '<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from'
J0 = Q(2451545); LIM = Q(36525)
U = Q(1, 2**50)

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    a, b = var('a', 'f'), var('b', 'f')
    r, ex = c.run(EPV, [[a, b]])
    w = r['warning']
    some = i_cmp('eq', w.discr, w.names.index('Some'))
    pick = lambda v: [('epv', [fl(v, 'a'), fl(v, 'b')])]
    Zi = Z(landmarks=[100, -100, 36525, -36525])
    A, B = Zi.t(a), Zi.t(b); S = zb(Zi.t(some))
    # the computation never panics, whatever the date
    c.z3_obls(Zi, ex, [], pick)
    BIG = rv(Q(2)**1024)
    fin = lambda x: z3.And(z3.Not(zb(x.nan)), x.v < BIG, x.v > -BIG)
    d = A.v + B.v - rv(J0); dist = zabs(d)
    tol = rv(U) * (1 + zabs(A.v) + zabs(B.v))
    c.satisfiable(Zi, [fin(A), fin(B), dist < rv(LIM)], 'dates inside')
    c.z3(Zi, [('ensures no warning inside the century', [fin(A), fin(B), dist < rv(LIM) - tol], z3.Not(S), pick),
              ('ensures warning outside the century', [fin(A), fin(B), dist > rv(LIM) + tol], S, pick),
              ('ensures warning exactly at the boundary', [fin(A), fin(B), A.v == rv(J0), zabs(B.v) == rv(LIM)], S, pick),
              ('ensures warning for NaN or infinite dates', [z3.Not(z3.And(fin(A), fin(B)))], S, pick)], timeout=100)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.randint(0, 5)
        x = float(rng.choice([-1, 1]) * LIM) + rng.choice([0.0, 1e-9, -1e-9, 1.0, -1.0, rng.uniform(-1e4, 1e4)])
        if q == 0: a, b = 2451545.0, x
        elif q == 1: a, b = 2400000.5, x + 51544.5
        elif q == 2: a = rng.uniform(-3e6, 3e6); b = 2451545 + x - a
        elif q == 3: a, b = x, 2451545.0
        elif q == 4: a, b = 2451545.0, rng.uniform(-36525, 36525)
        else: a, b = rng.choice([math.nan, math.inf, -math.inf, 0.0, 1e300, -1e300]), rng.choice([0.0, math.nan, math.inf, 1e300, 2451545.0])
        out.append(('epv', [a, b]))
    return out
BATCH = 100; MAXBATCH = 3000

def judge(case, out):
    a, b = case[1]
    if out[0] != 'ok': return 'expected a result'
    w = out[1][12]
    if not (math.isfinite(a) and math.isfinite(b)): return None if w == 1 else 'expected the warning'
    d = abs(Q(a) + Q(b) - J0); tol = U * (1 + abs(Q(a)) + abs(Q(b)))
    if a == 2451545.0 and abs(b) == 36525.0: return None if w == 1 else 'expected the warning at the boundary'
    if d < LIM - tol and w: return 'warning inside the century'
    if d > LIM + tol and not w: return 'no warning outside the century'
