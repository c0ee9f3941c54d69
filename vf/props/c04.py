"""to_julian then from_julian is the identity on dates, with a fraction of exactly 0."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec
from .jd import *

LO = spec.pmjd(-4799, 1, 1); HI = int(1e9 - 2400000.5)

def prove(c):
    c.used_contracts = ['GregorianDate::to_julian returns (2400000.5, day count) for every valid date (discharged here too, per month)']
    from . import c02
    # callee contract of to_julian, re-discharged on the current source
    c02.prove(c)
    # injectivity of the day count on valid dates
    y, m, d, y2, m2, d2 = z3.Ints('y m d y2 m2 d2')
    L = Z()
    its = []
    jan1 = lambda y: 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 - spec.RD_MJD0
    for k in range(1, 13):
        its.append(('lemma: a valid date lies in its year [month %d]' % k, [spec.valid(y, m, d), m == k],
                    z3.And(spec.mjd(y, m, d) >= jan1(y), spec.mjd(y, m, d) < jan1(y + 1))))
    its.append(('lemma: year starts increase (step)', [], jan1(y + 1) >= jan1(y) + 365))
    its.append(('lemma: within a year the day count determines month and day', [spec.valid(y, m, d), spec.valid(y, m2, d2), spec.mjd(y, m, d) == spec.mjd(y, m2, d2)], z3.And(m == m2, d == d2)))
    its.append(('lemma: year starts increase over any gap', [y2 > y], jan1(y2) >= jan1(y + 1)))
    c.z3(L, its, timeout=100)
    D = var('D', 'i', LO, HI)
    for order in ('MJD zero first', 'day count first'):
        args = [2400000.5, i2f(D)]
        swap = order != 'MJD zero first'
        if swap: args.reverse()
        r, ex = c.run(FJ, *args)
        ok, date, f, N = cut(r)
        ih = integer_half(c, ex, date, N, -32010, 1000000000 + 10, ' (%s)' % order)
        Zi = Z(landmarks=[-32000, 10**9, Q(1, 2)])
        pick = lambda v, swap=swap: [(('roundtrip_swap' if swap else 'roundtrip'), list(spec.pdate(v['D'])))]
        TD = Zi.t(D); OK = zb(Zi.t(ok)); F = Zi.t(f); n = Zi.t(N)
        its = [('ensures decoding succeeds (%s)' % order, [], OK, pick),
               ('ensures the fraction is exactly 0 (%s)' % order, [], z3.And(z3.Not(zb(F.nan)), F.v == 0), pick),
               ('ensures day number in range (%s)' % order, [], z3.And(n >= -32010, n <= 10**9 + 10), pick)]
        if ih:
            C, rest = ih
            its.append(('ensures the decoded day count is the encoded one (%s)' % order, [], n + C == TD, pick))
            its += [('no %s [%s] (%s)' % (o.kind, o.where, order), [], zb(Zi.t(b_imp(o.pc, o.cond))), pick) for o in rest]
        c.satisfiable(Zi, [], 'day counts')
        c.z3(Zi, its, timeout=100, split=atoms_of([f, N]))

def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.choice([rng.randint(LO, 100000), rng.randint(LO, HI), rng.randint(0, 80000), rng.choice([LO, HI, 0, -1, 1])])
        y, m, d = spec.pdate(q)
        if rng.random() < .4: m, d = rng.choice([(2, 28), (3, 1), (1, 1), (12, 31), (2, spec.pmlen(y, 2))])
        if spec.pmjd(y, m, d) > HI or y < -4799: continue
        out.append((rng.choice(['roundtrip', 'roundtrip_swap']), [y, m, d]))
    return out

def judge(case, out):
    w = ('ok', case[1] + [0.0])
    if case[0] == 'to_julian':
        from . import c02
        return c02.judge(case, out)
    if case[0] in ('from_julian', 'dh_from'): return None
    if out != w: return 'expected %r' % (w,)
