"""Earth rotation angle: range, symmetry, value."""
import z3, itertools
from ..core import *
from ..z3be import Z, zb, rv
from . import c09
ERA = 'tofas::earth::rotation_angle'
TWO_PI = c09.TWO_PI
# |double nearest 2*pi - 2*pi| < 2^-51 (pi to 60 digits below)
PI = Q('3.14159265358979323846264338327950288419716939937510582097494')
TOL = Q(1, 10**10)

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    c.used_contracts = ['anp (C09, discharged again here; inlined where used)']
    h0 = len(c.hints)
    c09.prove(c)
    c.hints = []
    for x in (2451545.0, 2400000.5, 0.0): c.hints += [('era', [x, y]) for y in (0.0, 1.0, -1.0, 51544.5, 0.25)]
    a, b = var('a', 'f'), var('b', 'f')
    r, ex = c.run(ERA, [[a, b]])
    r2, ex2 = c.run(ERA, [[b, a]])
    pick = lambda v: [('era', [float(v['a']), float(v['b'])]), ('era', [float(v['b']), float(v['a'])])]
    B = 10**300
    Zi = Z(landmarks=[TWO_PI], domain={'a': (-B, B), 'b': (-B, B)})
    W = Zi.t(r); W2 = Zi.t(r2); A, Bb = Zi.t(a).v, Zi.t(b).v
    c.satisfiable(Zi, [], 'dates')
    c.z3_obls(Zi, ex, [], pick)
    c.z3(Zi, [('ensures 0 <= angle < 2*pi', [], z3.And(z3.Not(zb(W.nan)), W.v >= 0, W.v < rv(TWO_PI)), pick)], timeout=60, split=atoms_of([r]))
    # symmetry: equal terms in each of the cases a < b, a = b, a > b
    for case, sign in (('a < b', -1), ('a = b', 0), ('a > b', 1)):
        m = {}
        for x in subterms([r, r2]):
            if x.op in ('flt', 'fle', 'feq') and {key(y) for y in x.args} == {a.id, b.id}:
                sg = sign if x.args[0] is a else -sign
                m[x.id] = {'flt': sg < 0, 'fle': sg <= 0, 'feq': sg == 0}[x.op]
            if x.op == 'fisnan': m[x.id] = False
        p, q = subst([r, r2], m)
        if sign == 0: p, q = subst([p, q], {b.id: a})
        t = time.time(); eq = same(p, q)
        c.record('ensures exchanging the parts gives the same angle [%s]' % case, 'term identity', eq, time.time() - t, None if eq else 'the two results are different expressions')
    # value, parts within 3e6 days, in turns: angle = T * (frac part), T the double 2*pi
    B = 3 * 10**6
    Zi = Z(landmarks=[TWO_PI], domain={'a': (-B, B), 'b': (-B, B)})
    W = Zi.t(r); A, Bb = Zi.t(a).v, Zi.t(b).v
    theta = rv(Q('0.7790572732640')) + rv(Q('1.00273781191135448')) * (A + Bb - 2451545)
    T = rv(TWO_PI)
    ks = [z3.ToReal(k) for k in Zi.ints]
    # angle - T*theta is T times an integer, built from the integer quotients of the remainders met
    its = []
    def goal(wit): return z3.Or(*[zabs(W.v - T * (theta - j)) <= rv(Q(9, 10**11)) for j in wit])
    small = [sum(ks, z3.RealVal(0)) - 2451545 + s for s in (-1, 0, 1)]
    large = [sum((x * k for x, k in zip(signs, ks)), z3.RealVal(0)) + s + A0 for signs in itertools.product((-1, 0, 1), repeat=min(len(ks), 3)) for s in (-1, 0, 1) for A0 in (0, -2451545)]
    nm = 'ensures angle = 2*pi*(0.7790572732640 + 1.00273781191135448*(UT1-2451545)) modulo one turn'
    c.z3_alt([[(nm, [], goal(w), pick)] for w in (small, large)], Zi, timeout=200, split=atoms_of([r]), first=5)
    # replacing the double T by 2*pi: |T - 2*pi| * (|theta| + turns) is below the remaining tolerance
    # (the angle is in [0, T), so the theta - j of the previous obligation is in [-0.01, 1.01])
    ok = abs(TWO_PI - 2 * PI) * Q(101, 100) < TOL - Q(9, 10**11)
    c.record('lemma: the double 2*pi may replace 2*pi within the tolerance', 'exact arithmetic', ok)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.randint(0, 4)
        if q == 0: a, b = 2451545.0, rng.uniform(-40000, 40000)
        elif q == 1: a, b = 2400000.5, rng.uniform(0, 90000)
        elif q == 2: a = rng.uniform(-3e6, 3e6); b = rng.uniform(-3e6, 3e6)
        elif q == 3: a, b = rng.uniform(2.3e6, 2.6e6), rng.choice([0.0, rng.random(), -rng.random()])
        else: a, b = rng.choice([0.0, 2451545.0, 1e9, -1e15, 0.5, 2451544.5, 1e200]), rng.choice([0.0, 0.5, -0.5, 1e7, rng.random(), -5e-324])
        if rng.random() < .5: a, b = b, a
        out.append(('era', [a, b])); out.append(('era', [b, a]))
    return out

_last = {}
def judge(case, out):
    a, b = case[1]
    if out[0] != 'ok': return 'expected an angle'
    r = out[1][0]
    if not (r >= 0 and r < 2 * math.pi): return 'not in [0, 2 pi)'
    o = _last.get((b, a))
    _last[(a, b)] = r
    if len(_last) > 4: _last.pop(next(iter(_last)))
    if o is not None and bits(o) != bits(r): return 'differs from the angle of the exchanged parts (%r)' % o
    if abs(a) > 3e6 or abs(b) > 3e6: return
    th = Q('0.7790572732640') + Q('1.00273781191135448') * (Q(a) + Q(b) - 2451545)
    x = Q(r) / (2 * PI) - th
    if abs(x - round(x)) * 2 * PI > TOL: return 'differs from the formula by %g rad' % float(abs(x - round(x)) * 2 * PI)
