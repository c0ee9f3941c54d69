"""Vector and matrix operations compute their algebraic definitions."""
import mpmath
from ..core import *
from ..exact import *
TRUSTED = ['libm sin, cos within 1 ulp']
BIG = 1e100
V = '<[f64; 3] as tofas::common::Vector>::'
M = '<[[f64; 3]; 3] as tofas::common::Matrix>::'
K = 2.0**-50
TINY = 1e-300

def vec(n): return [var(n + '%d' % i, 'f') for i in range(3)]
def mat(n): return [[var(n + '%d%d' % (i, j), 'f') for j in range(3)] for i in range(3)]

class Env:
    """an Exact domain with one symbol per entry"""
    def __init__(self):
        self.E = Exact()
    def v(self, x): return [self.E.input(t.args[0], -BIG, BIG, scale=True) for t in x]
    def m(self, x): return [self.v(r) for r in x]

def psum(*a):
    r = {}
    for x in a: padd_in(r, x)
    return r
def dot(a, b): return psum(*[pmul(x, y) for x, y in zip(a, b)])
def mmul(A, B): return [[dot(A[i], [B[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
def app(A, x): return [psum(*[pmul(A[i][j], x[i]) for i in range(3)]) for j in range(3)]
def flat(v): return [z for q in v for z in flat(q)] if isinstance(v, list) else [v]

def prove(c):
    x, y, k = vec('x'), vec('y'), var('k', 'f')
    A, B = mat('a'), mat('b')
    def check(what, got, spec, tol, N, ex):
        got, spec = leaves(got), flat(spec)
        c.no_panic(what, N.E, ex)
        if len(got) != len(spec): raise Unsupported('%s: %d components' % (what, len(got)))
        vals = None
        for i, s in enumerate(spec):
            def val(i=i):
                nonlocal vals
                N.E.eval([t for t in got if is_t(t)]) if vals is None else None
                vals = 1
                return N.E.val(got[i])
            c.exact('ensures %s, component %d' % (what, i), N.E, val, s, tol(s, N.E))
    rel = lambda s, E: aadd(ascale(E.absof(s), K), {(): TINY})
    exact = lambda s, E: {}
    def op(name, args, spec, tol=rel):
        N = Env(); r, ex = c.run(name, *args)
        check(name.split('::')[-1], r, spec(N), tol, N, ex)
    op(V + 'neg', [x], lambda N: [pscale(p, -1) for p in N.v(x)], exact)
    op(V + 'add', [x, y], lambda N: [psum(p, q) for p, q in zip(N.v(x), N.v(y))])
    op(V + 'sub', [x, y], lambda N: [padd(p, q, -1) for p, q in zip(N.v(x), N.v(y))])
    op(V + 'scale', [x, k], lambda N: [pmul(p, N.v([k])[0]) for p in N.v(x)])
    op(V + 'dot', [x, y], lambda N: [dot(N.v(x), N.v(y))])
    op(M + 'zero', [], lambda N: [{}] * 9, exact)
    op(M + 'identity', [], lambda N: [pconst(int(i % 4 == 0)) for i in range(9)], exact)
    op(M + 'apply', [A, x], lambda N: app(N.m(A), N.v(x)))
    op(M + 'compose', [A, B], lambda N: mmul(N.m(A), N.m(B)))
    op(M + 'transpose', [A], lambda N: [[N.m(A)[j][i] for j in range(3)] for i in range(3)], exact)
    # norm: n is the exact norm, n^2 = x0^2 + x1^2 + x2^2
    N = Env(); E = N.E; ps = N.v(x)
    n = E.sym('norm', 0, 2 * BIG, scale=True)
    i, j, l = [E.byname[t.args[0]] for t in x]
    E.rule((i, i), psum({(n, n): Q(1)}, {(j, j): Q(-1)}, {(l, l): Q(-1)}))
    for q in (i, j, l): E.arule((q,), (n,), 1.0)
    E.roots.append(({(n,): Q(1)}, 0.0))
    r, ex = c.run(V + 'norm', x)
    check('norm', r, [{(n,): Q(1)}], lambda s, E: {(n,): K, (): 1e-160}, N, ex)
    # rotations
    th = var('theta', 'f')
    for axis in range(3):
        N = Env(); E = N.E
        a, s, co = E.angle('theta'); E.input('theta', -1e300, 1e300, poly={(a,): Q(1)})
        S, C = {(s,): Q(1)}, {(co,): Q(1)}
        R = [[{}] * 3 for _ in range(3)]
        p, q = (axis + 1) % 3, (axis + 2) % 3
        R[axis][axis] = pconst(1); R[p][p] = C; R[p][q] = S; R[q][p] = pscale(S, -1); R[q][q] = C
        r, ex = c.run(M + 'rotation', axis, th)
        check('rotation about axis %d' % axis, r, R, lambda s, E: {(): 1e-15} if any(m for m in s) else {}, N, ex)
    # applying a product is applying the factors in turn
    ex0 = Exec(c.prog())
    ab = call(ex0, M + 'compose', A, B)
    r, ex = c.run(M + 'apply', ab, x)
    want = lambda N: app(N.m(B), app(N.m(A), N.v(x)))
    rel = lambda s, E: aadd(ascale(E.absof(s), K), {(): 1e-200})
    N = Env(); check('apply(compose(A,B), x) = apply(B, apply(A, x)) exactly', r, want(N), rel, N, ex)
    ax = call(Exec(c.prog()), M + 'apply', A, x)
    r, ex = c.run(M + 'apply', B, ax)
    N = Env(); check('apply(B, apply(A, x))', r, want(N), rel, N, ex)

def num(rng):
    q = rng.randint(0, 5)
    if q == 0: return float(rng.randint(-5, 5))
    if q == 1: return rng.uniform(-1, 1) * 10.0**rng.randint(-99, 99)
    if q == 2: return -0.0
    return rng.uniform(-10, 10)
def cases(rng, n, k):
    out = []
    v = lambda m=3: [num(rng) for _ in range(m)]
    for _ in range(n):
        o = rng.choice(['vneg', 'vadd', 'vsub', 'vscale', 'vdot', 'vnorm', 'mapply', 'mcompose', 'mtranspose', 'mrotation', 'mzero', 'midentity'])
        m = {'vneg': 3, 'vadd': 6, 'vsub': 6, 'vscale': 4, 'vdot': 6, 'vnorm': 3, 'mapply': 12, 'mcompose': 18, 'mtranspose': 9, 'mzero': 0, 'midentity': 0}.get(o)
        out.append((o, v(m) if m is not None else [rng.randint(0, 2), rng.uniform(-10, 10) * rng.choice([1, 1, 1e-8, 1e6])]))
    return out
def judge(case, out):
    o, a = case
    if out[0] != 'ok': return 'expected a value'
    mp = mpmath.mp.clone(); mp.dps = 60
    f = [mp.mpf(x) for x in a]; got = [mp.mpf(x) for x in out[1]]
    m = lambda z: [z[0:3], z[3:6], z[6:9]]
    if o == 'mrotation':
        ax, t = a[0], f[1]; R = [[mp.mpf(0)] * 3 for _ in range(3)]; p, q = (ax + 1) % 3, (ax + 2) % 3
        R[ax][ax] = mp.mpf(1); R[p][p] = R[q][q] = mp.cos(t); R[p][q] = mp.sin(t); R[q][p] = -mp.sin(t)
        want = [[e] for r in R for e in r]; tol = [1e-15] * 9
    elif o == 'vnorm': want = [[mp.sqrt(sum(x * x for x in f))]]; tol = [1e-160]
    else:
        want = {'vneg': lambda: [[-x] for x in f], 'vadd': lambda: [[f[i], f[i + 3]] for i in range(3)], 'vsub': lambda: [[f[i], -f[i + 3]] for i in range(3)],
            'vscale': lambda: [[x * f[3]] for x in f[:3]], 'vdot': lambda: [[f[i] * f[i + 3] for i in range(3)]],
            'mapply': lambda: [[m(f)[i][j] * f[9 + i] for i in range(3)] for j in range(3)],
            'mcompose': lambda: [[m(f)[i][k] * m(f[9:])[k][j] for k in range(3)] for i in range(3) for j in range(3)],
            'mtranspose': lambda: [[m(f)[j][i]] for i in range(3) for j in range(3)],
            'mzero': lambda: [[mp.mpf(0)]] * 9, 'midentity': lambda: [[mp.mpf(int(i % 4 == 0))] for i in range(9)]}[o]()
        tol = [TINY] * len(want)
    for i, (g, w) in enumerate(zip(got, want)):
        if not abs(g - sum(w)) <= K * sum(abs(x) for x in w) + tol[i]: return '%s component %d differs by %s' % (o, i, mp.nstr(g - sum(w), 4))
