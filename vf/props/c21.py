"""EllipsoidConverter::new accepts exactly the meaningful ellipsoids."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
NEW = 'tofas::ellipsoid::EllipsoidConverter::new'
ACC = 'tofas::ellipsoid::EllipsoidConverter::ellipsoid'
LIM = 1 - Q(1, 10**7)

def prove(c):
    a, f = var('a', 'f'), var('f', 'f')
    r, ex = c.run(NEW, [a, f])
    ok = i_cmp('eq', r.discr, r.names.index('Ok')); e = r.v['Err'][0]; conv = r.v['Ok'][0]
    pick = lambda v: [('ec_new', [fl(v, 'a'), fl(v, 'f')])]
    Zi = Z()
    A, F = Zi.t(a), Zi.t(f); OK = zb(Zi.t(ok))
    err = lambda n: z3.And(z3.Not(OK), zb(Zi.t(i_cmp('eq', e.discr, e.names.index(n)))))
    fok = z3.And(z3.Not(zb(F.nan)), F.v >= 0, F.v < 1); aok = z3.And(z3.Not(zb(A.nan)), A.v > 0)
    c.satisfiable(Zi, [fok, aok], 'meaningful ellipsoids')
    c.z3_obls(Zi, ex, [], pick)
    c.z3(Zi, [('ensures flattening outside [0,1) or NaN => InvalidFlattening', [z3.Not(fok)], err('InvalidFlattening'), pick),
              ('ensures good flattening, radius not positive or NaN => InvalidRadius', [fok, z3.Not(aok)], err('InvalidRadius'), pick),
              ('ensures good flattening up to 1 - 1e-7 and positive radius => Ok', [fok, aok, F.v <= rv(LIM)], OK, pick),
              ('ensures flattening above 1 - 1e-7 => Ok or BadEccentricity', [fok, aok, z3.Not(OK)], err('BadEccentricity'), pick)], timeout=60)
    t = time.time()
    # simplify the payload under Ok, then the accessor returns the arguments
    acc, ex2 = c.run(ACC, conv)
    p, q = leaves(acc)
    its = []
    P, Qq = Zi.t(p), Zi.t(q)
    its.append(('ensures the converter reports the given ellipsoid', [OK], z3.And(P.v == A.v, Qq.v == F.v, zb(P.nan) == zb(A.nan), zb(Qq.nan) == zb(F.nan)), pick))
    c.z3(Zi, its)
    c.z3_obls(Zi, ex2, [], pick)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        f = rng.choice([rng.random(), 1 / 298.257223563, 0.0, 1.0, -0.0, math.nan, math.inf, -math.inf, -1e-300, 5e-324, math.nextafter(1, 0), 1 - 1e-7, 2.0, -1.0, 0.5, 1 - rng.random() * 10.0**-rng.randint(0, 16)])
        a = rng.choice([6378137.0, 0.0, -0.0, -1.0, math.nan, math.inf, -math.inf, 5e-324, -5e-324, 1.0, 1e300, rng.uniform(-10, 10), 10.0**rng.uniform(-300, 300)])
        out.append(('ec_new', [a, f]))
    return out

def judge(case, out):
    a, f = case[1]
    if not 0 <= f < 1: return None if out == ('err', 'InvalidFlattening') else 'expected InvalidFlattening'
    if not a > 0: return None if out == ('err', 'InvalidRadius') else 'expected InvalidRadius'
    if Q(f) > LIM and out == ('err', 'BadEccentricity'): return
    if out[0] != 'ok': return 'expected success'
    if [bits(x) for x in out[1]] != [bits(a), bits(f)]: return 'reports another ellipsoid'
