"""The angle between two vectors is always a number in [0, pi]."""
import mpmath, z3
from ..core import *
from ..exact import *
from ..z3be import Z, zb
from .c11 import V, vec, psum, dot
TRUSTED = ['libm acos maps [-1,1] into [0, fl(pi)] within 1 ulp']
LO, HI = 1e-100, 1e100
TN, TD = 2.0**-49, 2.0**-46

def unit(E, x, tag):
    """symbols for the exact norm of x and its inverse -> exact unit vector"""
    ps = [E.input(t.args[0], -HI, HI, scale=True) for t in x]
    i, j, l = [E.byname[t.args[0]] for t in x]
    n = E.sym('norm' + tag, LO, HI, scale=True); m = E.sym('inv' + tag, 0.99 / HI, 1.01 / LO, scale=True)
    E.rule((i, i), psum({(n, n): Q(1)}, {(j, j): Q(-1)}, {(l, l): Q(-1)}))
    E.rule((n, m), pconst(1))
    for q in (i, j, l): E.arule((m, q), (), 1.0)
    E.arule((m, n), (), 1.0)
    for q in (i, j, l): E.arule((q,), (n,), 1.0)
    E.roots.append(({(n,): Q(1)}, LO)); E.invs.append(({(n,): Q(1)}, {(m,): Q(1)}))
    return [pmul(p, {(m,): Q(1)}) for p in ps]

def prove(c):
    x, y = vec('x'), vec('y')
    E = Exact(); u = unit(E, x, 'x')
    r, ex = c.run(V + 'normalize', x); c.no_panic('normalize', E, ex)
    E.eval(r)
    for i in range(3): c.exact('ensures normalize(x)[%d] = x[%d]/|x| to 2^-49, lengths 1e-100..1e100' % (i, i), E, lambda: E.val(r[i]), u[i], {(): TN})
    a, ex = c.run(V + 'angle', x, y)
    E = Exact(); u, v = unit(E, x, 'x'), unit(E, y, 'y')
    c.no_panic('angle', E, ex)
    t = time.time()
    ok = is_t(a) and a.op == 'facos'
    c.record('ensures the angle is the arc cosine of a computed cosine', 'vc-generator', ok, time.time() - t, None if ok else 'the result is ' + show(a, 3))
    if not ok: return
    arg = a.args[0]; d = arg
    while is_t(d) and d.op in ('ite', 'fmin', 'fmax'):
        d = next((z for z in d.args if is_t(z) and z.sort == 'f'), d.args[1])
    D = var('D', 'f')
    cl, = subst([arg], {d.id: D}) if is_t(d) else [arg]
    for nan in (False, True):
        Zi = Z(); zc, zd = Zi.t(cl), Zi.t(D)
        if not nan:
            h = [z3.Not(zb(zd.nan)), zd.v >= -2, zd.v <= 2]
            c.z3(Zi, [('ensures the argument of acos is not NaN and lies in [-1,1]', h, z3.And(z3.Not(zb(zc.nan)), zc.v >= -1, zc.v <= 1)),
                      ('ensures it is the computed dot product clamped to [-1,1]', h, zc.v == z3.If(zd.v < -1, z3.RealVal(-1), z3.If(zd.v > 1, z3.RealVal(1), zd.v)))])
            break
    E.eval([d])
    c.exact('ensures the computed dot product is a number within 2^-46 of x.y/(|x||y|), lengths 1e-100..1e100', E, lambda: E.val(d), dot(u, v), {(): TD})
    b, _ = c.run(V + 'angle', y, x)
    c.record('ensures angle(x,y) = angle(y,x) bit for bit', 'vc-generator (term identity)', same(a, b), 0, None if same(a, b) else 'the two orders compute different terms')

def rv3(rng):
    s = 10.0**rng.choice([0, 0, 0, rng.uniform(-99, 99)])
    q = rng.randint(0, 3)
    if q == 0: v = [rng.choice([-1.0, 0.0, 1.0, rng.uniform(-1, 1)]) for _ in range(3)]
    else: v = [rng.gauss(0, 1) * rng.choice([1, 1, 1e-9, 1e-160]) for _ in range(3)]
    if not any(v): v[0] = 1.0
    return [e * s for e in v]
def good(v): return 1.001 * LO < math.sqrt(sum((e / max(map(abs, v)))**2 for e in v)) * max(map(abs, v)) < HI / 1.001
def cases(rng, n, k):
    out = []
    while len(out) < n:
        v = rv3(rng); q = rng.randint(0, 5)
        if q == 0: w = list(v)
        elif q == 1: w = [-e for e in v]
        elif q == 2: w = [e * rng.choice([2.0, 0.1, -3.7, 1e3, -1e-5]) for e in v]; w[0] *= 1 + rng.choice([0, 1e-16, 1e-12, 1e-8])
        else: w = rv3(rng)
        if good(v) and good(w):
            out.append(('vangle', v + w)); out.append(('vangle', w + v)); out.append(('vnormalize', v))
    return out
def judge(case, out):
    o, a = case
    if out[0] != 'ok': return 'expected a value'
    mp = mpmath.mp.clone(); mp.dps = 60
    nrm = lambda v: mp.sqrt(sum(e * e for e in v))
    f = [mp.mpf(e) for e in a]
    if o == 'vnormalize':
        n = nrm(f)
        for g, e in zip(out[1], f):
            if not abs(g - e / n) <= TN: return 'component off by ' + mp.nstr(g - e / n, 4)
        return
    x, y = f[:3], f[3:]; d = sum(p * q for p, q in zip(x, y)) / nrm(x) / nrm(y); g = out[1][0]
    if not 0 <= g <= math.pi: return 'the angle is not in [0,pi]'
    if not abs(mp.cos(mp.mpf(g)) - d) <= TD + 2.0**-51: return 'cosine off by ' + mp.nstr(mp.cos(mp.mpf(g)) - d, 4)
