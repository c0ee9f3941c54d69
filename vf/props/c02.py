"""GregorianDate::to_julian is the exact Gregorian day count."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec
TJ = 'tofas::calendar::GregorianDate::to_julian'
I32 = (-2**31, 2**31 - 1)

def prove(c):
    y, m, d = [var(n, 'i', *I32) for n in 'ymd']
    r, ex = c.run(TJ, [y, m, d])
    Zi = Z()
    ty, tm, td = Zi.t(y), Zi.t(m), Zi.t(d)
    pick = lambda v: [('to_julian', [v['y'], v['m'], v['d']])]
    V = spec.valid(ty, tm, td)
    spec.calendar_lemmas(c)
    a, b = Zi.t(r[0]), Zi.t(r[1])
    its = [('no %s [%s] (month %d)' % (o.kind, o.where, k), [V, tm == k], Zi.t(b_imp(o.pc, o.cond)), pick) for o in ex.obls for k in range(1, 13)]
    its.append(('ensures first part = 2400000.5', [V], z3.And(z3.Not(zb(a.nan)), a.v == rv(Q(2400000.5))), pick))
    for k in range(1, 13):
        its.append(('ensures second part = day count (month %d)' % k, [V, tm == k], z3.And(z3.Not(zb(b.nan)), b.v == z3.ToReal(spec.mjd(ty, tm, td))), pick))
    c.satisfiable(Zi, [V], 'valid dates')
    c.z3(Zi, its)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        y = rng.choice([rng.randint(-4799, 3000), rng.randint(-4799, I32[1]), rng.randint(-47, 40) * 100, rng.choice([-4799, -4798, -4797, I32[1], I32[1] - 3, 0, -1, -4, 1900, 2000, 2100])])
        m = rng.randint(1, 12)
        d = rng.choice([rng.randint(1, spec.pmlen(y, m)), 1, spec.pmlen(y, m)])
        out.append(('to_julian', [y, m, d]))
    return out

def judge(case, out):
    w = ('ok', [2400000.5, float(spec.pmjd(*case[1]))])
    if out != w: return 'expected %r' % (w,)
