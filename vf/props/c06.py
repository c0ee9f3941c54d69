"""GregorianDateHMS: decoding and encoding combined date-times preserves the instant."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec
from .jd import *
from . import c02, c03, c05
DF = 'tofas::calendar::GregorianDateHMS::from_julian'
DT = 'tofas::calendar::GregorianDateHMS::to_julian'
SAMPLE = 4

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    c.used_contracts = ['GregorianDate::from_julian (C03)', 'HMS::from_fraction_of_day (C05)', 'GregorianDate::to_julian (C02)', 'HMS::to_fraction_of_day (C05)']
    # callee contracts, discharged again on the current source
    h0 = len(c.hints)
    c03.prove(c); c05.prove(c, only_from=True); c02.prove(c); c05.to_contract(c)
    conv = []
    for fn, a in c.hints[h0:]:
        if fn == 'from_julian': conv.append(('dh_from', a))
        elif fn == 'hms_from' and math.isfinite(a[0]): conv += [('dh_from', [2400000.5, a[0]]), ('dh_from', [2400000.5, 51544 + a[0]])]
        elif fn == 'hms_to' and a[0] <= 23 and a[1] <= 59 and 0 <= a[2] < 60: conv.append(('dh_to', [2000, 1, 1] + a))
        elif fn == 'to_julian': conv.append(('dh_to', a + [0, 0, 0.0]))
    c.hints = conv
    # decoding
    a, b = var('a', 'f'), var('b', 'f')
    r0, ex0 = c.run(FJ, a, b)
    ok0, date0, f0, N0 = cut(r0)
    F = var('F', 'f')
    r, ex = c.run(DF, a, b)
    ok = i_cmp('eq', r.discr, r.names.index('Ok'))
    v = r.v['Ok'][0]
    t = time.time()
    for k in ('year', 'month', 'day'):
        c.record('ensures %s is that of GregorianDate::from_julian' % k, 'term identity', same(v['date'][k], date0[k]), time.time() - t)
    # the fraction of day becomes a variable with the contract of from_julian
    if not is_t(f0): raise Unsupported('fraction')
    h, m, s, okF = subst([v['hms']['hour'], v['hms']['minute'], v['hms']['second'], ok], {f0.id: F})
    free = [x.args[0] for x in subterms([h, m, s]) if x.op == 'var' and x.args[0] != 'F']
    c.record('the time of day depends on the fraction of day only', 'term identity', not free, 0, free or None)
    Zi = Z(landmarks=[86400, 60, 24, -32000, 10**9, Q(1, 2)], domain={'F': (0, 1)}, intshift=True)
    FV_ = Zi.t(F); H, M, S = Zi.t(h), Zi.t(m), Zi.t(s)
    pick = lambda w: [('dh_from', [2400000.5, 51544.0 + float(w['F'])]), ('dh_from', [2400000.5, float(w['F'])]), ('dh_from', [0.5, float(w['F'])])]
    hyp = [FV_.v <= rv(1 - Q(1, 2**53))]
    exact = z3.ToReal(H) * 3600 + z3.ToReal(M) * 60 + S.v
    c.satisfiable(Zi, hyp, 'fractions in [0,1)')
    c.z3(Zi, [('ensures hour, minute, second in range', hyp, z3.And(z3.Not(zb(S.nan)), H >= 0, H <= 23, M >= 0, M <= 59, S.v >= 0, S.v < 60), pick),
              ('ensures time of day = fraction to 2^-53 (upper)', hyp, exact - 86400 * FV_.v <= rv(86400 * Q(1, 2**53) + Q(1, 2**1000)), pick),
              ('ensures time of day = fraction to 2^-53 (lower)', hyp, exact - 86400 * FV_.v >= -rv(86400 * Q(1, 2**53) + Q(1, 2**1000)), pick)], timeout=100, split=atoms_of([h, m, s]))
    # success exactly when from_julian succeeds (its fraction is in [0,1), hence a valid fraction of day)
    Zo = Z(landmarks=[-32000, 10**9])
    okc = subst([ok], {f0.id: F})[0]; ok0c = subst([ok0], {f0.id: F})[0]
    Fz = Zo.t(F)
    inF = z3.And(z3.Not(zb(Fz.nan)), Fz.v >= 0, Fz.v < 1)
    pk = lambda w: [('dh_from', [fl(w, 'a'), fl(w, 'b')])]
    c.z3(Zo, [('ensures Ok <=> GregorianDate::from_julian is Ok', [z3.Implies(zb(Zo.t(ok0c)), inF)], zb(Zo.t(okc)) == zb(Zo.t(ok0c)), pk)])
    # tolerance arithmetic: 2^-50(1+w) + 2^-53 + 2^-1000 <= 2^-49(1+w), w the magnitude of the lesser part
    w = z3.Real('w'); L = Z()
    c.z3(L, [('lemma: tolerances add up', [w >= 0], rv(Q(1, 2**50)) * (1 + w) + rv(Q(1, 2**53) + Q(1, 2**1000)) <= rv(Q(1, 2**49)) * (1 + w))])
    seen = {(o.kind, o.where) for o in ex0.obls}
    rest = [o for o in ex.obls if (o.kind, o.where) not in seen]
    if rest: c.z3(Zo, [('no %s [%s]' % (o.kind, o.where), [], zb(Zo.t(subst([b_imp(o.pc, o.cond)], {f0.id: F})[0])), pk) for o in rest])
    # encoding
    y, mo, d = [var(n, 'i', -2**31, 2**31 - 1) for n in 'ymd']
    hh, mm, ss = var('h', 'i', 0, 255), var('mi', 'i', 0, 255), var('s', 'f')
    rj, exj = c.run('tofas::calendar::GregorianDate::to_julian', [y, mo, d])
    rf, exf = c.run('tofas::calendar::HMS::to_fraction_of_day', [hh, mm, ss])
    rt, ext = c.run(DT, {'date': [y, mo, d], 'hms': [hh, mm, ss]})
    t = time.time()
    c.record('ensures first part is that of GregorianDate::to_julian', 'term identity', same(rt[0], rj[0]), time.time() - t)
    D = var('D', 'i', -3000000, 10**12)
    fr = var('fr', 'f')
    cut2 = {}
    if is_t(rj[1]) and rj[1].op == 'i2f': cut2[rj[1].id] = i2f(D)
    elif is_t(rj[1]): cut2[rj[1].id] = i2f(D)
    cut2[rf.id] = fr
    x = subst([rt[1]], cut2)[0]
    free = [q.args[0] for q in subterms([x]) if q.op == 'var' and q.args[0] not in ('D', 'fr')]
    c.record('the second part depends on the day count and the fraction only', 'term identity', not free, 0, free or None)
    if not free:
        Zt = Z(domain={'fr': (0, 1)})
        X = Zt.t(x); e = z3.ToReal(Zt.t(D)) + Zt.t(fr).v
        u = rv(Q(1, 2**53))
        pk = lambda w: [('dh_to', list(spec.pdate(w['D'])) + [h_, m_, s_]) for h_, m_, s_ in [hms_of(float(w['fr']))] if w['D'] >= LO and w['D'] < 7 * 10**11]
        c.satisfiable(Zt, [], 'encodings')
        c.z3(Zt, [('ensures second part = day count + fraction, rounded (upper)', [], z3.And(z3.Not(zb(X.nan)), X.v - e <= u * zabs(e)), pk),
                  ('ensures second part = day count + fraction, rounded (lower)', [], X.v - e >= -u * zabs(e), pk)])
    seen = {(o.kind, o.where) for o in exj.obls + exf.obls}
    c.record('to_julian adds no panic of its own', 'vc-generator', all((o.kind, o.where) in seen for o in ext.obls))

LO = spec.pmjd(-4799, 1, 1)
def hms_of(f):
    s = f * 86400; t = int(s)
    return min(t // 3600, 23), t % 3600 // 60, t % 60 + (s - t)

def cases(rng, n, k):
    out = []
    for i in range(n):
        if i % 3 < 2:
            p = list(c03.rndpair(rng))
            if rng.random() < .3:
                f = rng.randint(0, 86400) / 86400
                p = [2400000.5, rng.randint(-100000, 100000) + f]
            out.append(('dh_from', p))
        else:
            y, m, d = spec.pdate(rng.choice([rng.randint(LO, 100000), rng.randint(0, 80000), rng.randint(LO, 7 * 10**11)]))
            out.append(('dh_to', [y, m, d, rng.randint(0, 23), rng.randint(0, 59), rng.choice([rng.random() * 60, 0.0, 59.99999999999999, 1e-9])]))
    return out

def judge(case, out):
    if case[0] == 'dh_to':
        y, m, d, h, mi, s = case[1]
        n = spec.pmjd(y, m, d); X = (Q(3600 * h + 60 * mi) + Q(s)) / 86400
        if out[0] != 'ok' or out[1][0] != 2400000.5: return 'expected 2400000.5'
        e = Q(out[1][1]) - n - X
        if abs(e) > Q(1, 2**53) * (abs(n) + 2) + Q(1, 2**50): return 'second part differs by %g' % float(e)
        return
    if case[0] != 'dh_from': return
    a, b = case[1]; s = a + b
    if not (s >= -32000 and s <= 1e9): return None if out == ('err', 'BadJulian') else 'expected Err(BadJulian)'
    if out[0] != 'ok': return 'expected a date and time'
    y, m, d, h, mi, sec = out[1]
    if not (1 <= m <= 12 and 1 <= d <= spec.pmlen(y, m)): return 'not a valid date'
    if not (0 <= h <= 23 and 0 <= mi <= 59 and 0 <= sec < 60): return 'time out of range'
    err = abs(spec.pmjd(y, m, d) + Q(2400000.5) + (3600 * h + 60 * mi + Q(sec)) / 86400 - Q(a) - Q(b))
    if err > Q(1, 2**49) * (1 + abs(Q(min(a, b)))): return 'instant differs by %g days' % float(err)
