"""anp: every finite angle is brought into [0, 2*pi)."""
import z3
from ..core import *
from ..z3be import Z, zb, rv
ANP = 'tofas::common::anp'
TWO_PI = Q(2 * math.pi)
TOL = Q(1, 2**50)
MAXQ = Q(2**1024 - 2**971)

def zabs(x): return z3.If(x >= 0, x, -x)

def contract(Zi, a, w):
    """the postcondition of anp on z3 values: (formula, integer k)"""
    k = z3.Int('turns!%d' % len(Zi.defs))
    return z3.And(w >= 0, w < rv(TWO_PI)), k

def prove(c):
    a = var('a', 'f')
    w, ex = c.run(ANP, a)
    Zi = Z(landmarks=[TWO_PI], domain={'a': (None, None)})
    A = Zi.t(a).v; W = Zi.t(w)
    pick = lambda v: [('anp', [float(v['a'])])]
    c.z3_obls(Zi, ex, [], pick)
    T = rv(TWO_PI)
    c.satisfiable(Zi, [], 'finite angles')
    # the multiple of 2*pi: the integer quotient of the remainder operation, with a shift of one turn
    ks = [x for x in subterms([w]) if x.op == 'frem']
    its = [('ensures 0 <= r < 2*pi', [], z3.And(z3.Not(zb(W.nan)), W.v >= 0, W.v < T), pick),
           ('ensures a value already in range is returned unchanged', [A >= 0, A < T], W.v == A, pick)]
    # a - r is a multiple of 2*pi up to TOL: exists j with |a - r - j*2*pi| <= TOL
    wit = []
    for x in ks:
        kv = Zi.remk[x.id]
        wit += [z3.ToReal(kv) + s for s in (-1, 0, 1)]
    wit += [z3.RealVal(0)]
    goal = z3.Or(*[zabs(A - W.v - j * T) <= rv(TOL) for j in wit])
    its.append(('ensures a - r is a multiple of 2*pi to 2^-50', [], goal, pick))
    c.z3(Zi, its, timeout=100, split=atoms_of([w]))

def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.randint(0, 5)
        if q == 0: a = rng.uniform(-20, 20)
        elif q == 1: a = rng.choice([-1, 1]) * 10.0**rng.uniform(-320, 308)
        elif q == 2: a = 2 * math.pi * rng.randint(-1000, 1000)
        elif q == 3: a = math.nextafter(2 * math.pi * rng.randint(-3, 3), rng.choice([-100.0, 100.0]))
        elif q == 4: a = -rng.random() * 2.0**-rng.randint(40, 70)
        else: a = rng.choice([0.0, -0.0, 5e-324, -5e-324, math.pi, -math.pi, 2 * math.pi, -2 * math.pi, 1.7976931348623157e308])
        out.append(('anp', [a]))
    return out

def judge(case, out):
    a = case[1][0]
    if not math.isfinite(a): return
    if out[0] != 'ok': return 'expected an angle'
    r = out[1][0]
    if not (r >= 0 and r < 2 * math.pi): return 'not in [0, 2 pi)'
    if 0 <= a < 2 * math.pi and r != a: return 'changed an angle already in range'
    x = (Q(a) - Q(r)) / TWO_PI
    if abs(x - round(x)) * TWO_PI > TOL: return 'not congruent modulo 2 pi'
