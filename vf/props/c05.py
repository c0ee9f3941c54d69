"""HMS::from_fraction_of_day / to_fraction_of_day."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
FF = 'tofas::calendar::HMS::from_fraction_of_day'
TF = 'tofas::calendar::HMS::to_fraction_of_day'
U53 = Q(1, 2**53)

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c, only_from=False):
    f = var('f', 'f')
    r, ex = c.run(FF, f)
    ok = i_cmp('eq', r.discr, r.names.index('Ok')); e = r.v['Err'][0]; h = r.v['Ok'][0]
    pick = lambda v: [('hms_from', [fl(v, 'f')]), ('hms_rt', [fl(v, 'f')])]
    # every double
    Zi = Z()
    F = Zi.t(f); OK = zb(Zi.t(ok))
    inr = z3.And(z3.Not(zb(F.nan)), F.v >= 0, F.v <= 1)
    c.satisfiable(Zi, [OK], 'accepted fractions'); c.satisfiable(Zi, [z3.Not(OK)], 'rejected fractions')
    c.z3(Zi, [('ensures Ok <=> f in [0,1]', [], OK == inr, pick),
              ('ensures Err => BadFract', [z3.Not(OK)], zb(Zi.t(i_cmp('eq', e.discr, e.names.index('BadFract')))), pick)])
    # f in [0,1]
    Zi = Z(landmarks=[86400, 60, 24], domain={'f': (0, 1)}, intshift=True)
    F = Zi.t(f); H, M, S = Zi.t(h['hour']), Zi.t(h['minute']), Zi.t(h['second'])
    lt = [F.v < 1]
    # 86400 * f: the largest double below 1 gives less than 86400 after rounding
    lt.append(F.v <= rv(1 - U53))
    c.z3_obls(Zi, ex, [], pick, timeout=100)
    sp = atoms_of([h['hour'], h['minute'], h['second']])
    fin = z3.Not(zb(S.nan))
    c.satisfiable(Zi, lt, 'f in [0,1)')
    its = [('ensures hour in 0..23 for f < 1', lt, z3.And(H >= 0, H <= 23), pick),
           ('ensures minute in 0..59', [], z3.And(M >= 0, M <= 59), pick),
           ('ensures 0 <= second < 60', [], z3.And(fin, S.v >= 0, S.v < 60), pick),
           ('ensures f = 1 gives 24:00:00', [F.v == 1], z3.And(H == 24, M == 0, S.v == 0), pick)]
    exact = z3.ToReal(H) * 3600 + z3.ToReal(M) * 60 + S.v
    its += [('ensures the split denotes f to 2^-53 (upper)', [], exact - 86400 * F.v <= rv(86400 * U53 + Q(1, 2**1000)), pick),
            ('ensures the split denotes f to 2^-53 (lower)', [], exact - 86400 * F.v >= rv(-86400 * U53 - Q(1, 2**1000)), pick)]
    c.z3(Zi, its, timeout=100, split=sp)
    if only_from: return
    # recombination: from the contracts of both functions, or else on the result of the split itself
    h1, m1, s1 = var('h', 'i', 0, 24), var('m', 'i', 0, 59), var('s', 'f')
    g1, exg = c.run(TF, [h1, m1, s1])
    Zc = Z(domain={'s': (0, 60)})
    G, X = Zc.t(g1), z3.ToReal(Zc.t(h1)) * 3600 + z3.ToReal(Zc.t(m1)) * 60 + Zc.t(s1).v
    x, fr, gg = z3.Reals('x fr gg')
    near = lambda u, v, t: z3.And(u - v <= t, v - u <= t)
    tiny = Q(1, 2**1000)
    def composed(c):
        return c.z3(Zc, [('ensures to_fraction_of_day = (3600h+60m+s)/86400 to 6 * 2^-53 (upper)', [], z3.And(z3.Not(zb(G.nan)), 86400 * G.v - X <= rv(6 * U53) * X + rv(tiny))),
                         ('ensures to_fraction_of_day = (3600h+60m+s)/86400 to 6 * 2^-53 (lower)', [], 86400 * G.v - X >= rv(-6 * U53) * X - rv(tiny)),
                         ('ensures recombining gives f to 2^-50', [fr >= 0, fr <= 1, x >= 0, near(x, 86400 * fr, rv(86400 * U53 + tiny)), near(86400 * gg, x, rv(6 * U53) * x + rv(tiny))], near(gg, fr, rv(8 * U53)))], timeout=30)
    def direct(c):
        g, ex2 = c.run(TF, [h['hour'], h['minute'], h['second']])
        Zr = Z(landmarks=[86400, 60, 24], domain={'f': (0, 1)}, intshift=True)
        F = Zr.t(f); G = Zr.t(g)
        c.z3_obls(Zr, ex2, [], pick, timeout=100)
        return c.z3(Zr, [('ensures recombining gives f to 2^-50 (upper)', [], z3.And(z3.Not(zb(G.nan)), G.v - F.v <= rv(8 * U53)), pick),
                  ('ensures recombining gives f to 2^-50 (lower)', [], G.v - F.v >= rv(-8 * U53), pick)], timeout=100, split=sp)
    c.alt(composed, direct)
    to_contract(c)

def to_contract(c):
    h, m, s = var('h', 'i', 0, 255), var('m', 'i', 0, 255), var('s', 'f')
    g, ex = c.run(TF, [h, m, s])
    Zi = Z(domain={'s': (0, 10**6)})
    H, M, S, G = Zi.t(h), Zi.t(m), Zi.t(s), Zi.t(g)
    pick = lambda v: [('hms_to', [v['h'], v['m'], fl(v, 's')])]
    c.z3_obls(Zi, ex, [], pick)
    X = (z3.ToReal(H) * 3600 + z3.ToReal(M) * 60 + S.v)
    tol = rv(Q(1, 2**50)) * X + rv(Q(1, 2**1050))
    c.satisfiable(Zi, [], 'all hours, minutes, seconds in [0, 1e6]')
    c.z3(Zi, [('ensures to_fraction_of_day = (3600h+60m+s)/86400 (upper)', [], z3.And(z3.Not(zb(G.nan)), 86400 * G.v - X <= tol), pick),
              ('ensures to_fraction_of_day = (3600h+60m+s)/86400 (lower)', [], 86400 * G.v - X >= -tol, pick)], timeout=100)

def rndf(rng):
    k = rng.randint(0, 6)
    if k == 0: return rng.random()
    if k == 1: return rng.randint(0, 86400) / 86400
    if k == 2:
        x = rng.randint(0, 86400) / 86400
        for _ in range(rng.randint(0, 3)): x = math.nextafter(x, rng.choice([-1.0, 2.0]))
        return x
    if k == 3: return 1 - rng.random() * 2.0**-rng.randint(1, 53)
    if k == 4: return rng.random() * 2.0**-rng.randint(1, 1060)
    if k == 5: return rng.choice([0.0, -0.0, 1.0, math.nan, math.inf, -math.inf, -5e-324, 5e-324, math.nextafter(1, 2), math.nextafter(1, 0), 1e300, -1.0])
    return rng.randint(0, 1440) / 1440

def cases(rng, n, k):
    out = []
    for i in range(n):
        if i % 3 < 2:
            f = rndf(rng); out.append(('hms_from' if i % 3 else 'hms_rt', [f]))
        else: out.append(('hms_to', [rng.choice([rng.randint(0, 255), rng.randint(0, 23)]), rng.choice([rng.randint(0, 255), rng.randint(0, 59)]), rng.choice([rng.random() * 60, 59.999999999, 0.0, 60.0, rng.random() * 1e6, 1e-300])]))
    return out

def judge(case, out):
    if case[0] == 'hms_to':
        h, m, s = case[1]
        X = Q(3600 * h + 60 * m) + Q(s)
        if out[0] != 'ok': return 'expected a number'
        g = out[1][0]
        if not math.isfinite(g) or abs(Q(g) - X / 86400) > Q(1, 2**50) * X / 86400 + Q(1, 2**1050): return 'expected %r' % float(X / 86400)
        return
    f = case[1][0]
    if not 0 <= f <= 1: return None if out == ('err', 'BadFract') else 'expected Err(BadFract)'
    if out[0] != 'ok': return 'expected a time'
    if case[0] == 'hms_rt':
        g = out[1][0]
        if not math.isfinite(g) or abs(Q(g) - Q(f)) > Q(1, 2**50): return 'recombined %r' % g
        return
    h, m, s = out[1]
    if f == 1: return None if out[1] == [24, 0, 0.0] else 'expected 24:00:00'
    if not (0 <= h <= 23 and 0 <= m <= 59 and 0 <= s < 60): return 'out of range'
    if abs(Q(3600 * h + 60 * m) + Q(s) - 86400 * Q(f)) > 86400 * Q(1, 2**53): return 'denotes another fraction'
