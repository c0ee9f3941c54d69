"""Time-scale conversions add exactly the defined offset to the smaller part."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
T = 'tofas::time::'
B = 10**300
# name, replay command, function, offset (None: argument), sign
CONV = [('TT = UT1 + dT', 'tt_from_ut1', T + 'TT::from_ut1', None, 1), ('TAI = UTC + dAT', 'tai_from_utc', T + 'TAI::from_utc_delta_at', None, 1),
        ('TT = TAI + 32.184 s', 'tt_from_tai', '<tofas::time::TT as std::convert::From<tofas::time::TAI>>::from', Q('32.184'), 1),
        ('TDB = TT + dTR', 'tdb_from_tt', T + 'TDB::from_tt', None, 1), ('UT1 = TT - dT', 'ut1_from_tt', T + 'UT1::from_tt', None, -1)]
TOT = [(s, s.lower() + '_total', T + s + '::total') for s in ('TT', 'UTC', 'TAI', 'UT1')]

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    a, b, o = var('a', 'f'), var('b', 'f'), var('o', 'f')
    for what, cmd, fn, off, sg in CONV:
        args = [[[a, b]]] + ([o] if off is None else [])
        r, ex = c.run(fn, *args)
        p, q = leaves(r)
        Zi = Z(domain={'a': (-B, B), 'b': (-B, B), 'o': (-B, B)})
        A, Bb = Zi.t(a).v, Zi.t(b).v
        O = Zi.t(o).v if off is None else rv(off)
        P, Qq = Zi.t(p), Zi.t(q)
        d = O * rv(Q(sg, 86400))
        tol = lambda part: rv(Q(1, 2**51)) * (zabs(part) + zabs(O) * rv(Q(1, 86400))) + rv(Q(1, 10**300))
        def pick(v, cmd=cmd, off=off): return [(cmd, [float(v['a']), float(v['b'])] + ([float(v['o'])] if off is None else []))]
        fin = z3.And(z3.Not(zb(P.nan)), z3.Not(zb(Qq.nan)))
        def near(x, part): return z3.And(x - part - d <= tol(part), x - part - d >= -tol(part))
        c.satisfiable(Zi, [A > Bb], 'first part greater')
        c.z3_obls(Zi, ex, [], pick)
        c.z3(Zi, [('ensures first part greater: kept, second = part + offset (%s)' % what, [A > Bb], z3.And(fin, P.v == A, near(Qq.v, Bb)), pick),
                  ('ensures first part not greater: second kept, first = part + offset (%s)' % what, [A <= Bb], z3.And(fin, Qq.v == Bb, near(P.v, A)), pick)])
    for what, cmd, fn in TOT:
        r, ex = c.run(fn, [[a, b]])
        Zi = Z(domain={'a': (-B, B), 'b': (-B, B)})
        pick = lambda v, cmd=cmd: [(cmd, [float(v['a']), float(v['b'])])]
        c.z3_obls(Zi, ex, [], pick)
        X = Zi.t(r); S = Zi.t(f_op('fadd', a, b))
        c.z3(Zi, [('ensures %s total = double-precision sum of the parts' % what, [], z3.And(z3.Not(zb(X.nan)), X.v == S.v), pick)])

def rn(rng):
    k = rng.randint(0, 7)
    if k == 0: return 2451545.0
    if k == 1: return 2400000.5
    if k == 2: return rng.random()
    if k == 3: return rng.uniform(-1e7, 1e7)
    if k == 4: return rng.choice([0.0, -1.0, 1.0, 0.5, -0.5, 5e-324])
    if k == 5: return rng.choice([-1, 1]) * 10.0**rng.uniform(-20, 20)
    if k == 6: return float(rng.randint(-100000, 100000))
    return rng.choice([-1, 1]) * 10.0**rng.uniform(-300, 299)

def cases(rng, n, k):
    out = []
    for i in range(n):
        a, b = rn(rng), rn(rng)
        if rng.random() < .1: b = a
        if i % 6 == 5:
            out.append((rng.choice(TOT)[1], [a, b])); continue
        _, cmd, _, off, _ = CONV[i % 5]
        out.append((cmd, [a, b] + ([rng.choice([37.0, 69.184, -69.184, rn(rng), rng.uniform(-100, 100)])] if off is None else [])))
    return out

def judge(case, out):
    a, b = case[1][:2]
    if out[0] != 'ok': return 'expected a date'
    if case[0].endswith('_total'): return None if out[1][0] == a + b else 'expected %r' % (a + b)
    for what, cmd, fn, off, sg in CONV:
        if cmd == case[0]: break
    O = off if off is not None else Q(case[1][2])
    p, q = out[1]
    kept, moved, orig, part = (p, q, a, b) if a > b else (q, p, b, a)
    if bits(kept) != bits(orig): return 'the greater part changed'
    if not math.isfinite(moved): return 'not finite'
    if abs(Q(moved) - Q(part) - sg * O / 86400) > Q(1, 2**51) * (abs(Q(part)) + abs(O) / 86400) + Q(1, 10**300): return 'offset is not %s s' % float(sg * O)
