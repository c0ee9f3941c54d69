"""delta_at: TAI-UTC of every date follows the IERS table."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec
from . import c02
DA = '<tofas::calendar::GregorianDate as tofas::delta_at::DeltaAt>::delta_at'
TJ = c02.TJ
I32 = (-2**31, 2**31 - 1)
# IERS/USNO tai-utc.dat: from the first day of (year, month): offset [s], reference MJD, rate [s/day]
TABLE = [
 (1960, 1, '1.4178180', 37300, '0.0012960'), (1961, 1, '1.4228180', 37300, '0.0012960'), (1961, 8, '1.3728180', 37300, '0.0012960'),
 (1962, 1, '1.8458580', 37665, '0.0011232'), (1963, 11, '1.9458580', 37665, '0.0011232'), (1964, 1, '3.2401300', 38761, '0.0012960'),
 (1964, 4, '3.3401300', 38761, '0.0012960'), (1964, 9, '3.4401300', 38761, '0.0012960'), (1965, 1, '3.5401300', 38761, '0.0012960'),
 (1965, 3, '3.6401300', 38761, '0.0012960'), (1965, 7, '3.7401300', 38761, '0.0012960'), (1965, 9, '3.8401300', 38761, '0.0012960'),
 (1966, 1, '4.3131700', 39126, '0.0025920'), (1968, 2, '4.2131700', 39126, '0.0025920')] + [(y, m, str(10 + i), 0, '0') for i, (y, m) in enumerate([
 (1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7), (1983, 7),
 (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)])]
TOL = Q(1, 10**11)

def prove(c):
    c.used_contracts = ['GregorianDate::to_julian returns (2400000.5, day count) (C02, discharged again here)']
    h0 = len(c.hints)
    c02.prove(c)
    c.hints = [('delta_at', a + [0.5]) for fn, a in c.hints[h0:]]
    y, m, d = [var(n, 'i', *I32) for n in 'ymd']; fd = var('fd', 'f')
    rj, exj = c.run(TJ, [y, m, d])
    r, ex = c.run(DA, [y, m, d], fd)
    # the day count is replaced by a variable carrying to_julian's contract
    D = var('D', 'i', -3000000, 10**12)
    ok = i_cmp('eq', r.discr, r.names.index('Ok'))
    e = r.v['Err'][0]; op = r.v['Ok'][0]
    some = i_cmp('eq', op.discr, op.names.index('Some')); val = op.v['Some'][0]
    cutm = {rj[1].id: i2f(D)} if is_t(rj[1]) else {}
    ok, some, val, bf = subst([ok, some, val, i_cmp('eq', e.discr, e.names.index('BadFract'))], cutm)
    Zi = Z()
    Y, M, Dd, F = Zi.t(y), Zi.t(m), Zi.t(d), Zi.t(fd)
    OK = zb(Zi.t(ok)); SOME = zb(Zi.t(some)); V = spec.valid(Y, M, Dd)
    def pick(v):
        fds = [fl(v, 'fd')] if 'fd' in v else [0.5]
        return [('delta_at', [v['y'], v['m'], v['d'], x]) for x in fds]
    inr = z3.And(z3.Not(zb(F.nan)), F.v >= 0, F.v <= 1)
    its = [('ensures Ok <=> fraction in [0,1]', [V], OK == inr, pick),
           ('ensures Err => BadFract', [V, z3.Not(OK)], zb(Zi.t(bf)), pick),
           ('ensures None before 1960', [V, inr, Y < 1960], z3.Not(SOME), pick),
           ('ensures Some from 1960 on', [V, inr, Y >= 1960], SOME, pick)]
    its += [('no %s [%s]' % (o.kind, o.where), [V], zb(Zi.t(subst([b_imp(o.pc, o.cond)], cutm)[0])), pick) for o in ex.obls]
    c.satisfiable(Zi, [V, inr, Y >= 1960], 'dates since 1960')
    c.z3(Zi, its, timeout=60)
    Zf = Z(domain={'fd': (0, 1)})
    Y, M, Dd, F = Zf.t(y), Zf.t(m), Zf.t(d), Zf.t(fd); V = spec.valid(Y, M, Dd)
    X = Zf.t(val); N = Zf.t(D)
    def pick2(v):
        return [('delta_at', [v['y'], v['m'], v['d'], float(v.get('fd', Q(1, 2)))]), ('delta_at', [v['y'], v['m'], v['d'], 1.0])]
    its = []
    for i, (ey, em, dat, ref, rate) in enumerate(TABLE):
        mm = Y * 12 + M
        hyp = [V, mm >= 12 * ey + em, N == spec.mjd(Y, M, Dd)]
        if i + 1 < len(TABLE): hyp.append(mm < 12 * TABLE[i + 1][0] + TABLE[i + 1][1])
        if ey >= 1972: goal = X.v == rv(Q(dat))
        else:
            s = rv(Q(dat)) + (z3.ToReal(N) + F.v - ref) * rv(Q(rate))
            goal = z3.And(X.v - s <= rv(TOL), X.v - s >= -rv(TOL))
        its.append(('ensures the value of the entry %d-%02d applies from its first day to the next entry' % (ey, em), hyp, z3.And(z3.Not(zb(X.nan)), goal), pick2))
    c.z3(Zf, its, timeout=60)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.randint(0, 5)
        if q < 3:
            ey, em = rng.choice(TABLE)[:2]
            y, m, d = spec.pdate(spec.pmjd(ey, em, 1) + rng.choice([-1, 0, 1, 15, 30, -31, rng.randint(-400, 400)]))
        elif q == 3: y, m, d = spec.pdate(rng.randint(30000, 70000))
        elif q == 4: y, m, d = spec.pdate(rng.randint(-2400000, 10**9))
        else: y, m, d = rng.choice([-4799, 2**31 - 1, 2**31 - 2, 1959, 1960, 2017, 178956971, 178956970]), rng.choice([1, 12]), rng.choice([1, 31])
        if y < -4799: continue
        out.append(('delta_at', [y, m, d, rng.choice([0.0, 1.0, rng.random(), 0.5, rng.random(), math.nan, -1e-300, math.nextafter(1, 2), math.inf]) if rng.random() < .3 else rng.random()]))
    return out

def judge(case, out):
    y, m, d, f = case[1]
    if not spec.pvalid(y, m, d): return
    if not 0 <= f <= 1: return None if out == ('err', 'BadFract') else 'expected Err(BadFract)'
    if out[0] != 'ok': return 'expected a value'
    if y < 1960: return None if out[1] == [0] else 'expected none before 1960'
    if out[1][0] != 1: return 'expected a value from 1960 on'
    for ey, em, dat, ref, rate in reversed(TABLE):
        if (ey, em) <= (y, m): break
    v = out[1][1]
    if ey >= 1972: return None if v == float(dat) else 'expected %s' % dat
    w = Q(dat) + (spec.pmjd(y, m, d) + Q(f) - ref) * Q(rate)
    if not math.isfinite(v) or abs(Q(v) - w) > TOL: return 'expected %.9f' % float(w)
