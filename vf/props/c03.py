"""GregorianDate::from_julian: valid date, fraction in [0,1), same instant, for all pairs of doubles."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec
from .jd import *

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    a, b = var('a', 'f'), var('b', 'f')
    r, ex = c.run(FJ, a, b)
    ok, date, f, N = cut(r)
    ih = integer_half(c, ex, date, N, -32010, 1000000000 + 10)
    Zi = Z(landmarks=[-32000, 10**9, Q(1, 2), -2])
    A, B = Zi.t(a), Zi.t(b)
    pick = lambda v: [('from_julian', [fl(v, 'a'), fl(v, 'b')])]
    OK = zb(Zi.t(ok)); F = Zi.t(f); n = Zi.t(N); e = r.v['Err'][0]
    dj = Zi.t(f_op('fadd', a, b))
    inr = z3.And(zb(z3.Not(zb(dj.nan))), dj.v >= -32000, dj.v <= 10**9)
    its = [('ensures Ok <=> the double-precision sum lies in [-32000, 1e9]', [], OK == inr, pick)]
    bj = Zi.t(i_cmp('eq', e.discr, e.names.index('BadJulian')))
    its.append(('ensures Err => BadJulian', [z3.Not(OK)], zb(bj), pick))
    its.append(('ensures 0 <= f < 1', [OK], z3.And(z3.Not(zb(F.nan)), F.v >= 0, F.v < 1), pick))
    its.append(('ensures day number in the range of the integer half', [OK], z3.And(n >= -32010, n <= 10**9 + 10), pick))
    sp = atoms_of([f, N])
    c.satisfiable(Zi, [OK], 'accepted pairs'); c.satisfiable(Zi, [z3.Not(OK)], 'rejected pairs')
    c.z3(Zi, its, timeout=100, split=sp)
    if not ih: return
    C, rest = ih
    c.z3(Zi, [('no %s [%s]' % (o.kind, o.where), [], zb(Zi.t(b_imp(o.pc, o.cond))), pick) for o in rest], timeout=60, split=sp)
    big = [z3.Or(zabs(A.v) >= rv(2**60), zabs(B.v) >= rv(2**60))]
    Zs = Z(landmarks=[-32000, 10**9, Q(1, 2), -2], domain={'a': (-2**60, 2**60), 'b': (-2**60, 2**60)})
    for Zj, hyp, what in ((Zi, big, 'a part of at least 2^60'), (Zs, [], 'parts within 2^60')):
        A, B, F, n, OK = Zj.t(a), Zj.t(b), Zj.t(f), Zj.t(N), zb(Zj.t(ok))
        x = z3.ToReal(n) + C + rv(Q(2400000.5)) + F.v - (A.v + B.v)
        tol = rv(Q(1, 2**50)) * (1 + zabs(z3.If(A.v <= B.v, A.v, B.v)))
        c.z3(Zj, [('ensures instant of the result <= exact sum + tol [%s]' % what, [OK] + hyp, x <= tol, pick),
                  ('ensures instant of the result >= exact sum - tol [%s]' % what, [OK] + hyp, x >= -tol, pick)], timeout=120, split=sp)

def rndpair(rng):
    k = rng.randint(0, 10)
    n = rng.choice([rng.randint(-32000, 5000000), rng.randint(-32000, 10**9), rng.randint(2300000, 2500000)])
    f = rng.choice([rng.random(), rng.random() * 2.0**-rng.randint(1, 60), 1 - rng.random() * 2.0**-rng.randint(1, 53), 0.5, 0.0, -rng.random() * 2.0**-rng.randint(1, 70)])
    if k == 0: a, b = float(n), f
    elif k == 1: a, b = n + 0.5, f
    elif k == 2: a, b = 2400000.5, n - 2400000.5 + f
    elif k == 3: a = rng.uniform(-1e6, 1e6); b = n + f - a
    elif k == 4: a, b = n + f, 0.0
    elif k == 5: a = 2.0**rng.randint(30, 60) * rng.random(); b = n - a
    elif k == 6: a, b = rng.choice([math.nan, math.inf, -math.inf, 1e300, -1e300, 1e9, -32000.0, 5e-324]), rng.choice([0.0, math.nan, 1e9, -32000.0, math.inf, -1e300, 1e300, -5e-324, 1e-7])
    elif k == 7: a, b = 2451545.0, f * rng.choice([1, 1e-10, 1e3])
    elif k == 8: a, b = n + 0.5, rng.choice([-1, 1]) * 2.0**-rng.randint(20, 80)
    elif k == 9: a, b = -rng.random() * 10.0**rng.randint(0, 4), -rng.random() * 10.0**rng.randint(0, 4)
    else: a, b = rng.choice([1e9, -32000.0]), rng.choice([-1, 1]) * 2.0**-rng.randint(1, 40) * rng.random()
    if rng.random() < .5: a, b = b, a
    return a, b

def cases(rng, n, k): return [('from_julian', list(rndpair(rng))) for _ in range(n)]

def judge(case, out):
    a, b = case[1]
    s = a + b
    if not (s >= -32000 and s <= 1e9): return None if out == ('err', 'BadJulian') else 'expected Err(BadJulian)'
    if out[0] != 'ok': return 'expected a date'
    y, m, d, f = out[1]
    if not (1 <= m <= 12 and 1 <= d <= spec.pmlen(y, m)): return 'not a valid date'
    if not 0 <= f < 1: return 'fraction not in [0,1)'
    err = abs(spec.pmjd(y, m, d) + Q(2400000.5) + Q(f) - Q(a) - Q(b))
    if err > Q(1, 2**50) * (1 + abs(Q(min(a, b)))): return 'instant differs by %g days' % float(err)
