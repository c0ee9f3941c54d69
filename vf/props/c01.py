"""GregorianDate::new accepts exactly the proleptic Gregorian dates."""
import z3
from ..core import *
from ..z3be import Z
from .. import spec
NEW = 'tofas::calendar::GregorianDate::new'
I32 = (-2**31, 2**31 - 1)

def prove(c):
    y, m, d = [var(n, 'i', *I32) for n in 'ymd']
    r, ex = c.run(NEW, y, m, d)
    Zi = Z()
    ty, tm, td = Zi.t(y), Zi.t(m), Zi.t(d)
    pick = lambda v: [('date_new', [v['y'], v['m'], v['d']])]
    c.z3_obls(Zi, ex, [], pick)
    ok = Zi.t(i_cmp('eq', r.discr, r.names.index('Ok')))
    e = r.v['Err'][0]
    V = spec.valid(ty, tm, td)
    iserr = lambda n: Zi.t(i_cmp('eq', e.discr, e.names.index(n)))
    from ..z3be import zb
    f = r.v['Ok'][0]
    its = [('ensures Ok <=> valid date', [], zb(ok) == V, pick),
           ('ensures Ok => fields unchanged', [zb(ok)], z3.And(Zi.t(f['year']) == ty, Zi.t(f['month']) == tm, Zi.t(f['day']) == td), pick),
           ('ensures year < -4799 => BadYear', [ty < -4799], z3.And(z3.Not(zb(ok)), zb(iserr('BadYear'))), pick),
           ('ensures bad month => BadMonth', [ty >= -4799, z3.Or(tm < 1, tm > 12)], z3.And(z3.Not(zb(ok)), zb(iserr('BadMonth'))), pick),
           ('ensures bad day => BadDay', [ty >= -4799, tm >= 1, tm <= 12, z3.Not(V)], z3.And(z3.Not(zb(ok)), zb(iserr('BadDay'))), pick)]
    Zi.defs = list(Zi.defs)
    c.satisfiable(Zi, [V], 'valid dates exist'); c.satisfiable(Zi, [z3.Not(V)], 'invalid dates exist')
    c.z3(Zi, its)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        y = rng.choice([rng.randint(-4803, 3000), rng.randint(*I32), rng.randint(-48, 40) * 100, rng.randint(-12, 10) * 400, rng.choice([-4800, -4799, -4798, I32[0], I32[1], 0, -1, -4, 1900, 2000, 2100])])
        m = rng.choice([rng.randint(1, 12), 2, rng.randint(-1, 14), rng.randint(*I32), rng.choice(I32)])
        d = rng.choice([rng.randint(1, 31), rng.randint(27, 32), rng.randint(-1, 33), rng.randint(*I32), rng.choice(I32)])
        out.append(('date_new', [y, m, d]))
    return out

def judge(case, out):
    y, m, d = case[1]
    if y < -4799: w = ('err', 'BadYear')
    elif not 1 <= m <= 12: w = ('err', 'BadMonth')
    elif not spec.pvalid(y, m, d): w = ('err', 'BadDay')
    else: w = ('ok', [y, m, d])
    if out != w: return 'expected %r' % (w,)
