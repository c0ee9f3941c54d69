"""Geocentric to geodetic conversion inverts the forward conversion."""
import itertools
import mpmath, numpy as np
from ..core import *
from ..exact import *
from ..ideal import LIBM
from .rot import conditions
from . import c19
NEW, G2G = c19.NEW, c19.G2G
INV = 'tofas::ellipsoid::EllipsoidConverter::geocentric_to_geodetic'
TRUSTED = ['libm sin, cos, atan and atan2 are within 2^-52 (atan2, hypot: 2^-51) of the exact value; |atan| <= fl(pi/2)']
A_, F_ = 6378137.0, 1.0 / 298.257223563
RMIN = 6e6
# outer radius [m], tolerance of the round trip [m]
TIERS = ((6.9e6, 2e-5), (4e7, 2e-3), (1e9, 3e-3))
BAND = 1.13                         # ratio of the radii of the bands each shell is divided into
A, S, C, CL, SL = range(5)          # symbols: a0, sin beta, cos beta, cos and sin of the longitude
NB = 32                             # boxes per axis

# ------------------------------------------------- values: exact polynomial + error polynomial
class Dom:
    """Values of the code over x = a a0 C/ec cos l, y = a a0 C/ec sin l, z = +-a a0 S (C^2+S^2 = 1):
    exact polynomials in these symbols, and a bound of the rounding error as a polynomial with
    non-negative coefficients (so that it can be compared with the value factor by factor)."""
    def __init__(self, amin, amax, cmin, cmax, k, neg):
        self.rng = {A: (amin, amax), S: (0.0, 1.0), C: (cmin, cmax), CL: (-1.0, 1.0), SL: (-1.0, 1.0)}
        self.memo = {}; self.facts = {}; self.roots = []      # (symbol, its square as a polynomial)
        kq = Q(k) * Q(A_)
        self.inp = {'x': ({(A, C, CL): kq}, {}), 'y': ({(A, C, SL): kq}, {}), 'z': ({(A, S): Q(-A_ if neg else A_)}, {})}
        self.sign = -1 if neg else 1
        self.quot = None
    def mag(self, p):
        """polynomial of magnitudes over the positive symbols"""
        r = {}
        for m, c in p.items():
            n = tuple(i for i in m if i not in (CL, SL)); r[n] = up(r.get(n, 0.0) + up(abs(float(c))))
        return r
    def nf(self, p):
        """cos^2 l = 1 - sin^2 l"""
        out = {}; todo = dict(p)
        while todo:
            m, c = todo.popitem(); r = sub_mono(m, (CL, CL))
            if r is None: padd_in(out, {m: c})
            else: padd_in(todo, {r: c}); padd_in(todo, {tuple(sorted(r + (SL, SL))): -c})
        return out
    def nf2(self, p):
        """also C^2 = 1 - S^2"""
        out = {}; todo = self.nf(p)
        while todo:
            m, c = todo.popitem(); r = sub_mono(m, (C, C))
            if r is None: padd_in(out, {m: c})
            else: padd_in(todo, {r: c}); padd_in(todo, {tuple(sorted(r + (S, S))): -c})
        return out
    def emul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n)); r[k] = up(r.get(k, 0.0) + up(c * d))
        return r
    def round(self, p, e, tiny=0.0):
        p = self.nf(p); e = aadd(ascale(e, 1 + 2 * U), ascale(self.mag(p), U))
        if tiny: e = aadd(e, {(): tiny})
        return p, e
    def bounds(self, m):
        lo = hi = 1.0
        for i in m: lo = dn(lo * self.rng[i][0]); hi = up(hi * self.rng[i][1])
        return lo, hi

    def val(self, t):
        if not is_t(t):
            if not math.isfinite(t): raise Unsupported('infinite or NaN constant')
            return (pconst(Q(t)) if t else {}), {}
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo: st.pop(); continue
            todo = self.need(x)
            todo = [y for y in todo if is_t(y) and y.id not in self.memo]
            if todo: st += todo; continue
            self.memo[x.id] = self.node(x); st.pop()
        v = self.memo[t.id]
        if v[0] is None: raise Unsupported('quotient used other than as a result')
        return v
    def truth(self, c):
        if not is_t(c): return c
        if c.id in self.facts: return self.facts[c.id]
        if c.op == 'not':
            x = self.truth(c.args[0]); return None if x is None else not x
        if c.op == 'and':
            x, y = self.truth(c.args[0]), self.truth(c.args[1])
            return False if x is False or y is False else True if x and y else None
        if c.op in ('flt', 'fle'):
            # only comparisons of z with zero
            for i in (0, 1):
                z, o = c.args[i], c.args[1 - i]
                if is_t(z) and z.op == 'var' and z.args[0] == 'z' and not is_t(o) and o == 0:
                    # z = 0 lies in both half spaces, where a choice by the sign of z selects equal values (zero_same)
                    return (self.sign < 0) if i == 0 else (self.sign > 0)
        return None
    def need(self, x):
        if x.op == 'ite':
            b = self.truth(x.args[0])
            if b is None: raise Unsupported('undecided branch ' + show(x.args[0], 3))
            return [x.args[1 if b else 2]]
        return [y for y in x.args if is_t(y) and y.sort == 'f']
    def node(self, x):
        o = x.op
        if o == 'var':
            if x.args[0] not in self.inp: raise Unsupported('input ' + x.args[0])
            return self.inp[x.args[0]]
        if o == 'ite': return self.get(x.args[1 if self.truth(x.args[0]) else 2])
        if o == 'fcopysign':     # of an arc tangent of magnitudes, or of a positive quantity, by the sign of z
            zz = x.args[1]
            if not (is_t(zz) and zz.op == 'var' and zz.args[0] == 'z'): raise Unsupported('sign of ' + show(zz, 2))
            p, e = self.get(x.args[0])
            if self.sign > 0: return p, e
            return (None, (e[0], -e[1]) + e[2:]) if p is None else (pscale(p, -1), e)
        if o == 'fatan':
            q = self.get(x.args[0])
            if q[0] is not None: raise Unsupported('arc tangent of something else than a quotient')
            return None, ('atan',) + q[1][1:]
        if o == 'fneg':
            p, e = self.get(x.args[0])
            if p is None: return None, (e[0], -e[1]) + e[2:]
            return pscale(p, -1), e
        vs = [self.get(y) for y in x.args]
        if o in ('fmul', 'fdiv'):      # by +1 or -1
            for i in (0, 1) if o == 'fmul' else (1,):
                w = vs[i]; v = vs[1 - i]
                if w[0] is not None and not w[1] and set(w[0]) == {()} and abs(w[0][()]) == 1:
                    return (None, (v[1][0], v[1][1] * int(w[0][()])) + v[1][2:]) if v[0] is None else (pscale(v[0], w[0][()]), v[1])
        if o != 'fabs' and any(v[0] is None for v in vs): raise Unsupported(o + ' of a quotient')
        (p, e), (q, g) = vs[0], vs[1] if len(vs) > 1 else ({}, {})
        if o in ('fadd', 'fsub'):
            if not p and not e or not q and not g: return padd(p, q, 1 if o == 'fadd' else -1), aadd(e, g)
            return self.round(padd(p, q, 1 if o == 'fadd' else -1), aadd(e, g))
        if o in ('fmul', 'ffma'):
            r = pmul(p, q); f = aadd(self.emul(self.mag(p), g), self.emul(self.mag(q), e), self.emul(e, g))
            if o == 'ffma': r, f = padd(r, vs[2][0]), aadd(f, vs[2][1])
            if not r and not f: return {}, {}
            return self.round(r, f, ETA)
        if o == 'fabs':
            if p is not None and not e and len(p) == 1 and all(i in (A, S, C) for m in p for i in m):
                return {m: abs(c) for m, c in p.items()}, {}
            # of a positive arc tangent (its numerator and denominator are proved positive in method_error)
            if p is None and e[0] == 'atan' and e[1] == 1: return p, e
            raise Unsupported('absolute value')
        if o == 'fsqrt': return self.sqrt(p, e)
        if o == 'fhypot':        # of the inputs: within 4 half ulps of the exact value
            if e or g: raise Unsupported('hypot of a computed value')
            r, f = self.sqrt(self.nf(padd(pmul(p, p), pmul(q, q))), {})
            return r, aadd(f, ascale(self.mag(r), 4 * U), {(): ETA})
        if o == 'fdiv':
            if set(q) <= {()} and not g:
                c = q.get((), Q(0))
                if c == 0: raise Unsupported('division by zero')
                return self.round(pscale(p, 1 / c), ascale(e, up(abs(1 / float(c)))), ETA)
            return None, ('quot', 1, (p, e), (q, g))
        raise Unsupported('operation ' + o)
    def get(self, t): return self.memo[t.id] if is_t(t) else self.val(t)

    def common(self, p):
        ms = list(p)
        if not ms: raise Unsupported('zero polynomial')
        m = [min(n.count(i) for n in ms) for i in range(max(max(n, default=0) for n in ms) + 1)]
        return tuple(i for i, k in enumerate(m) for _ in range(k))
    def sqrt(self, p, e):
        """square roots: monomials squared times a known square, or times 1"""
        if not p and not e: return {}, {}
        m = self.common(p)
        if any(m.count(i) % 2 for i in set(m)): m = tuple(i for i in set(m) for _ in range(m.count(i) // 2 * 2))
        h = tuple(sorted(i for i in set(m) for _ in range(m.count(i) // 2)))
        rest = {sub_mono(n, m): c for n, c in p.items()}
        cand = [((), Q(1))]
        r2 = self.nf2(rest); root = None
        if set(r2) == {()}:
            c = r2[()]; n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: root = {h: Q(n, d)}
            lower = [(root, 1.0)]
        else:
            for s, sq, lo in self.roots:
                if self.nf2(padd(rest, sq, -1)) == {}: root = {tuple(sorted(h + (s,))): Q(1)}; break
        if root is None: raise Unsupported('square root of an unknown quantity')
        # relative error of the argument: E / value, value = root^2
        (rm, rc), = root.items()
        rel, rest_abs = self.ratio(e, {tuple(sorted(rm + rm)): rc * rc})
        if not rel <= 0.25: raise Unsupported('square root of an inaccurate value')
        f = {rm: up(abs(float(rc)) * (0.51 + rel) * rel)}
        p, f = self.round(root, f)
        return p, f
    def ratio(self, e, v):
        """sup of E/V for a monomial V (one-term polynomial) -> (sup, 0)"""
        (vm, vc), = v.items(); s = 0.0
        for m, c in e.items():
            k = c / abs(float(vc)); num = list(m); den = list(vm)
            for i in list(num):
                if i in den: num.remove(i); den.remove(i)
            s = up(s + up(k * self.bounds(num)[1] / self.bounds(den)[0]))
        return s, 0.0

# ---------------------------------------------------- polynomials in (w = 1/a0, u = sin^2 beta)
class Poly2:
    """exact polynomial in (w, u), bounded on boxes by Bernstein coefficients"""
    def __init__(self, d):
        nw = max((k[0] for k in d), default=0); nu = max((k[1] for k in d), default=0)
        self.a = np.zeros((nw + 1, nu + 1))
        for (i, j), c in d.items(): self.a[i, j] = float(c)
        self.b = np.abs(self.a)
    def bern(self, Mw, Mu):
        """range on a box, given the conversion matrices of the two variables (entries >= 0, relative
        error below 1e-14, as are the coefficients): every computed Bernstein coefficient is within
        1e-12 of the same sum over magnitudes"""
        W, V_ = norm_bern(Mw, self.a.shape[0]), norm_bern(Mu, self.a.shape[1])
        x = W @ self.a @ V_.T; e = 1e-12 * (W @ self.b @ V_.T)
        return float((x - e).min()), float((x + e).max())
_bm = {}
def norm_bern(box, n):
    """matrix from monomial coefficients (degree < n) to Bernstein coefficients on [x0, x1] with 0 <= x0 < x1"""
    r = _bm.get((box, n))
    if r is None:
        x0, x1 = float(box[0]), float(box[1]); h = x1 - x0
        T = np.array([[math.comb(k, i) * x0**(k - i) * h**i if k >= i else 0.0 for k in range(n)] for i in range(n)])
        B = np.array([[math.comb(j, i) / math.comb(n - 1, i) if j >= i else 0.0 for i in range(n)] for j in range(n)])
        r = _bm[(box, n)] = B @ T
    return r

def to_wu(p, n, rng=None):
    """polynomial in (a0, S, C), even in S and C -> Poly2 of p * w^n"""
    out = {}
    for m, c in p.items():
        i, s, k = m.count(A), m.count(S), m.count(C)
        if len(m) != i + s + k or s % 2 or k % 2 or i > n: raise Unsupported('parity of the formula')
        for j in range(k // 2 + 1):
            key_ = (n - i, s // 2 + j)
            out[key_] = out.get(key_, 0) + c * math.comb(k // 2, j) * (-1)**j
    return {k: v for k, v in out.items() if v}
def deg(p): return max(m.count(A) for m in p)

def wgs84(c):
    """the constant the library calls WGS84"""
    e, _ = c.run('tofas::ellipsoid::WGS84')
    ok = e == {'a': A_, 'f': F_}
    c.record('ensures WGS84 has the equatorial radius 6378137 m and the flattening 1/298.257223563', 'vc-generator', ok, 0, None if ok else repr(e))
    if not ok: c.hints.append(('wgs84', []))

def prove(c):
    c.used_contracts = ['geodetic_to_geocentric = foot point + height * normal to 2^-45 (C19, discharged again here)']
    V_ = {n: var(n, 'f') for n in ('a', 'f', 'elong', 'phi', 'h')}
    c19.prove1(c, V_, *c19.TIERS[0], ' [flattening up to 1/100]')
    c.hints = []
    wgs84(c)
    r, _ = c.run(NEW, [A_, F_])
    if r.discr != r.names.index('Ok'): raise Unsupported('the WGS84 converter is not built')
    conv = r.v['Ok'][0]
    x, y, z = (var(n, 'f') for n in 'xyz')
    g, ex = c.run(INV, conv, [x, y, z])
    for o in ex.obls: c.record('no %s [%s]' % (o.kind, o.where), 'vc-generator', False, 0, 'not excluded')
    if not ex.obls: c.record('no panic reachable in geocentric_to_geodetic', 'vc-generator', True)
    lon, phi, hgt = g['elong'], g['phi'], g['height']
    mirror(c, x, y, z, lon, phi, hgt)
    ec = conv_ec(conv)
    conds = [q for q in conditions([lon, phi, hgt]) if not z_sign(q)]
    if len(conds) > 3: raise Unsupported('too many branches')
    # at z = 0 the choices by the sign of z are those of one of the half spaces (both include z = 0)
    zs = {q.id: q for q in conditions([lon, phi, hgt]) if z_sign(q)}.values()
    agree = {(q.op == 'fle') == (q.args[0] is not z) for q in zs} | ({'copysign'} if any(q.op == 'fcopysign' and q.args[1] is z for q in subterms([t for t in (lon, phi, hgt) if is_t(t)])) else set())
    c.record('lemma: z = 0 belongs to a half space', 'vc-generator', len(agree) <= 1, 0, None if len(agree) <= 1 else 'mixed choices by the sign of z')
    r1 = RMIN
    for r2, tol in TIERS:
        nb = max(1, math.ceil(math.log(r2 / r1) / math.log(BAND)))
        rs = [r1 * (r2 / r1)**(i / nb) for i in range(nb)] + [r2]
        for neg in (False, True):
            for tv in itertools.product((True, False), repeat=len(conds)):
                shell(c, lon, phi, hgt, list(zip(conds, tv)), ec, rs, tol, neg)
        r1 = r2

def conv_ec(conv):
    """sqrt(1-e2): any constant close to it serves to define the symbols"""
    return math.sqrt(1 - (2 - F_) * F_)

def z_sign(q):
    return q.op in ('flt', 'fle') and any(is_t(t) and t.op == 'var' and t.args[0] == 'z' for t in q.args) and any(not is_t(t) and t == 0 for t in q.args)

def mirror(c, x, y, z, lon, phi, hgt):
    """changing the sign of z changes the sign of the latitude, bit for bit, and nothing else"""
    w = var('absz', 'f')
    def inst(t, neg):
        a, = subst([t], {z.id: f_op('fneg', w) if neg else w})
        for _ in range(4):
            m = {}
            for q in subterms([a]) if is_t(a) else []:
                if q.op == 'fabs' and q.args[0] is w: m[q.id] = w
                elif q.op == 'fcopysign' and q.args[1] is w: m[q.id] = q.args[0]
                elif q.op == 'fcopysign' and is_t(q.args[1]) and q.args[1].op == 'fneg' and q.args[1].args[0] is w: m[q.id] = f_op('fneg', q.args[0])
                elif q.op == 'fabs' and is_t(q.args[0]) and q.args[0].op == 'fneg' and q.args[0].args[0] is w: m[q.id] = w
                elif q.op in ('flt', 'fle'):
                    p, o = q.args
                    nw = lambda t: 1 if t is w else -1 if is_t(t) and t.op == 'fneg' and t.args[0] is w else 0
                    if nw(p) and not is_t(o) and o == 0: m[q.id] = nw(p) < 0
                    elif nw(o) and not is_t(p) and p == 0: m[q.id] = nw(o) > 0
            if not m: break
            a, = subst([a], m)
        return a
    n = lambda t: f_op('fneg', t) if is_t(t) else -t
    for nm, t, f in (('longitude', lon, lambda v: v), ('latitude', phi, n), ('height', hgt, lambda v: v)):
        p, q = inst(t, False), inst(t, True)
        ok = same(q, f(p)) or same_cases(q, f, p)
        c.record('ensures for z > 0: %s(x,y,-z) = %s%s(x,y,z) bit for bit' % (nm, '-' if nm == 'latitude' else '', nm), 'vc-generator (term identity)', ok, 0, None if ok else 'different computations')
def same_cases(q, f, p):
    """equality under every branch"""
    cs = conditions([t for t in (q, p) if is_t(t)])
    if len(cs) > 3: return False
    for tv in itertools.product((True, False), repeat=len(cs)):
        a, b = subst([q, p], {k.id: v for k, v in zip(cs, tv)})
        if not same(a, f(b)): return False
    return True

def p_range(D, q, v):
    """bounds of a0*C implied by the truth value v of a comparison of a function of p with a constant"""
    if q.op == 'not': return p_range(D, q.args[0], not v)
    if q.op not in ('flt', 'fle', 'feq'): raise Unsupported('condition ' + show(q, 3))
    l, r = q.args; sw = False
    if not is_t(l): l, r, sw = r, l, True            # now l is the term
    if is_t(r): raise Unsupported('condition ' + show(q, 3))
    p, e = D.val(l)
    if len(p) != 1: raise Unsupported('condition on something else than the distance to the axis')
    (m, k), = p.items()
    d = m.count(A)
    if k <= 0 or d == 0 or m != tuple([A] * d + [C] * d): raise Unsupported('condition on something else than the distance to the axis')
    rel = 0.0; ab = 0.0
    for n, ev in e.items():
        if n == m: rel += ev / float(k)
        elif n == (): ab += ev
        else: raise Unsupported('condition on an inaccurate quantity')
    # |computed - k t^d| <= rel k t^d + ab, t = a0 C
    up_ = lambda b: up((max(b + ab, 1e-290) / (float(k) * (1 - rel)))**(1 / d) * (1 + 1e-12))
    lo_ = lambda b: dn((max(b - ab, 0.0) / (float(k) * (1 + rel)))**(1 / d) * (1 - 1e-12))
    if q.op == 'feq': return (0.0, up_(r)) if v else (0.0, math.inf)
    less = v != sw                                    # computed <= r (roughly), or >= r
    return (0.0, up_(r)) if less else (lo_(r), math.inf)

def xy_zero(q):
    """'x' or 'y' for the test of that coordinate against zero"""
    if q.op == 'feq' and any(not is_t(t) and t == 0 for t in q.args):
        return next((t.args[0] for t in q.args if is_t(t) and t.op == 'var' and t.args[0] in ('x', 'y')), None)

def shell(c, lon, phi, hgt, case, ec, rs, tol, neg):
    tag = ' [%.3g m <= r <= %.3g m, z %s 0]' % (rs[0], rs[-1], '<' if neg else '>=')
    br = ' [' + ', '.join('%s%s' % ('' if v else 'not ', show(q, 2)) for q, v in case) + ']'
    t = time.time(); worst = None; a, = subst([lon], {q.id: v for q, v in case})
    name = 'ensures converting back gives the point to %.3g m%s' % (tol, tag)
    try:
        for r1, r2 in zip(rs, rs[1:]):
            w = region(a, phi, hgt, case, 1 / Q(ec), ec, r1, r2, neg)
            if w is None: continue
            if worst is None or w[0] > worst[0]: worst = w
        if worst is None: return                      # contradictory branches
        total, br, txt, okl = worst
        c.record('ensures the longitude is atan2(y,x)%s%s' % (br, tag), 'vc-generator', okl, 0, None if okl else 'is ' + (show(a, 3) if is_t(a) else repr(a)))
        c.record(name + br, BE_EXACT, total <= tol, time.time() - t, '%s; total %.3g m' % (txt, total))
    except Unsupported as e: c.record(name + br, BE_EXACT, False, time.time() - t, str(e))

def region(a, phi, hgt, case, k, ec, r1, r2, neg):
    """-> (bound of the round trip error, branch, text, longitude correct) or None"""
    amin, amax = dn(r1 * ec / A_ * (1 - 1e-12)), up(r2 / A_ * (1 + 1e-12))
    D = Dom(amin, amax, 0.0, 1.0, k, neg)
    lo, hi = 0.0, math.inf                            # a0*C
    zero = [(xy_zero(q), v) for q, v in case if xy_zero(q)]
    if {n for n, v in zero if v} == {'x', 'y'}: hi = 0.0   # other outcomes of tests of x and y against zero exclude no distance
    for q, v in case:
        if xy_zero(q): continue
        x, y = p_range(D, q, v); lo, hi = max(lo, x), min(hi, y)
    if lo > hi: return None
    pm = A_ * float(k)
    tiny = pm * hi <= 1e-9                            # any longitude will do
    D = Dom(amin, amax, lo / amax, min(1.0, hi / amin), k, neg)
    for q, v in case: D.facts[q.id] = v
    axis = tiny or pm * hi <= 1e-3 and constant(D, phi)
    br = ' [p <= %.3g m]' % (pm * hi) if axis else ' [p >= %.3g m]' % (pm * lo)
    if not tiny: ok = is_t(a) and a.op == 'fatan2' and [is_t(q) and q.op == 'var' and q.args[0] for q in a.args] == ['y', 'x']
    else: ok = not is_t(a) and math.isfinite(a) or is_t(a) and a.op == 'fatan2'
    if axis: total, txt = on_axis(D, phi, hgt, r2, pm * hi)
    elif lo == 0: raise Unsupported('a branch that reaches the axis')
    else: total, txt = off_axis(D, phi, hgt, r2, k)
    total += pm * min(hi, amax) * 2 * LIBM + 2.0**-45 * (A_ + r2 + A_)
    return total, br, txt, ok

def resolve(D, t):
    while is_t(t) and t.op == 'ite':
        b = D.truth(t.args[0])
        if b is None: raise Unsupported('undecided branch ' + show(t.args[0], 3))
        t = t.args[1 if b else 2]
    return t

FOLD = ('fadd', 'fsub', 'fmul', 'fdiv')
def constant(D, t):
    """the latitude does not depend on the point, but for the sign of z"""
    t = resolve(D, t)
    return not is_t(t) or t.op in ('fneg', 'fabs') and constant(D, t.args[0]) or t.op == 'fcopysign' and not is_t(t.args[0]) or t.op in FOLD and all(constant(D, x) for x in t.args)

def on_axis(D, phi, hgt, rmax, pmax):
    def const(t):
        t = resolve(D, t)
        if not is_t(t): return t
        if t.op == 'fneg': return -const(t.args[0])
        if t.op == 'fabs': return abs(const(t.args[0]))
        if t.op == 'fcopysign' and is_t(t.args[1]) and t.args[1].op == 'var' and t.args[1].args[0] == 'z': return const(t.args[0]) * D.sign
        if t.op in FOLD: return f_op(t.op, *[const(x) for x in t.args])
        raise Unsupported('latitude on the axis is not a constant')
    p = const(phi)
    dphi = abs(float(mpmath.mpf(p) * D.sign - mpmath.pi / 2))
    if dphi > 1e-9: raise Unsupported('latitude on the axis is %r' % p)
    v, e = D.val(hgt)
    want = {(A, S): Q(A_), (): -Q(A_) * (1 - Q(F_))}
    d = padd(v, want, -1)
    err = sum(c * D.bounds(m)[1] for m, c in D.mag(d).items()) + sum(c * D.bounds(m)[1] for m, c in e.items())
    # true height along the axis: the foot point at latitude +-pi/2 is the pole; the point is p off the axis
    return err + dphi * 1.1 * (rmax + A_) + pmax, 'latitude error %.3g, height error %.3g m' % (dphi, err)

def off_axis(D, phi, hgt, rmax, k):
    p = resolve(D, phi)
    ev(D, p)
    kind = D.memo[p.id]
    if kind[0] is not None or kind[1][0] != 'atan': raise Unsupported('the latitude is not an arc tangent')
    _, sg, (num, en), (den, ed) = kind[1]
    if sg != D.sign: raise Unsupported('sign of the latitude')
    if not num or not den: raise Unsupported('degenerate latitude')
    # strip the common monomial of numerator and denominator, then S from the numerator and C from the denominator
    g = D.common({**num, **den})
    n1 = {sub_mono(m, g): v for m, v in num.items()}; d1 = {sub_mono(m, g): v for m, v in den.items()}
    P = {sub_mono(m, (S,)): v for m, v in n1.items()}; Qp = {sub_mono(m, (C,)): v for m, v in d1.items()}
    if None in P or None in Qp: raise Unsupported('the latitude formula does not vanish on the equator or reach 90 degrees on the axis')
    n = max(deg(P), deg(Qp))
    w0, w1 = 1 / D.rng[A][1] * (1 - 1e-9), 1 / D.rng[A][0] * (1 + 1e-9)
    f = Q(F_); e2 = (2 - f) * f; ec2 = (1 - f)**2; kq = Q(k)
    # A = (p/a) num - (z/a) den = S C a0 [k P - Q];  B = e2 num den / sqrt(den^2 + ec2 num^2) = S C e2 P Q / sqrt(..)
    key_ = (frozenset(P.items()), frozenset(Qp.items()), w0, w1)
    if key_ not in _cache: _cache[key_] = method_error(P, Qp, n, w0, w1, e2, ec2, kq)
    res, hlo, Plo, Qlo = _cache[key_]
    res *= A_
    # rounding of the latitude: relative errors of numerator and denominator
    rn, an = relerr(D, en, g + (S,), Plo, n), 0.0
    rd, _ = relerr(D, ed, g + (C,), Qlo, n)
    rn, an = rn
    if rn > 1e-3 or rd > 1e-3: raise Unsupported('inaccurate latitude')
    # an: absolute part of the numerator (underflow), relative to the denominator
    dphi = up((rn + rd) * 0.501 + an + U + 2 * LIBM)
    # height: quotient with numerator p den + |z| num - a sqrt(ec2 num^2 + den^2) and denominator sqrt(num^2 + den^2)
    R, eh = height(D, hgt, num, den, g, n1, d1, hlo, n, k)
    mism = eh[1]
    total = res + (1.01 * A_ + rmax + A_) * dphi * 1.001 + eh[0] + mism
    return total, 'method error %.3g m, latitude rounding %.3g rad, height rounding %.3g m' % (res, dphi, eh[0])

_cache = {}
def method_error(P, Qp, n, w0, w1, e2, ec2, kq):
    A1 = pmul({(A,): Q(1)}, padd(pscale(P, kq), Qp, -1))
    W2 = padd(pmul({(C, C): Q(1)}, pmul(Qp, Qp)), pscale(pmul({(S, S): Q(1)}, pmul(P, P)), ec2))
    H2 = padd(pmul({(C, C): Q(1)}, pmul(Qp, Qp)), pmul({(S, S): Q(1)}, pmul(P, P)))
    PQ = pscale(pmul(P, Qp), e2)
    N = padd(pmul(PQ, PQ), pmul(pmul(A1, A1), W2), -1)          # (B^2 - A^2) W2 / (S C)^2
    polys = {nm: Poly2(to_wu(q, kx)) for nm, q, kx in (('P', P, n), ('Q', Qp, n), ('A', A1, n + 1), ('W', W2, 2 * n), ('H', H2, 2 * n), ('N', N, 2 * (2 * n + 1)))}
    res = 0.0; hlo, Plo, Qlo = math.inf, math.inf, math.inf
    ws = [w0 + (w1 - w0) * i / NB for i in range(NB + 1)]; us = [i / NB for i in range(NB + 1)]
    # the scaled quantities: P w^n etc.; B ~ e2 P Q/sqrt(W2) w^n; A w^(n+1)
    for i in range(NB):
        for j in range(NB):
            b = {nm: q.bern((ws[i], ws[i + 1]), (us[j], us[j + 1])) for nm, q in polys.items()}
            if b['P'][0] <= 0 or b['Q'][0] <= 0 or b['W'][0] <= 0 or b['H'][0] <= 0: raise Unsupported('the latitude formula is singular or of the wrong sign')
            w_lo = float(ws[i])
            # in units of a: |T| = S C |N| / (W2 (A + B) H), everything scaled by powers of w
            # N w^(4n+2), W w^(2n), H w^(2n) -> sqrt, A w^(n+1), B w^n
            Blo = float(e2) * b['P'][0] * b['Q'][0] / math.sqrt(b['W'][1])
            # A + B in a0-power n+1: A w^(n+1) + (B w^n) w
            s = b['A'][0] + Blo * w_lo
            if s <= 0: raise Unsupported('the latitude formula is not close to the normal')
            SC = math.sqrt(float(us[j + 1]) * (1 - float(us[j])))
            nn = max(abs(b['N'][0]), abs(b['N'][1]))
            # T = SC N / (W (A+B) H): powers: N a0^(4n+2) / (a0^(2n) a0^(n+1) a0^n) = a0^1; the factor a0 = 1/w
            res = max(res, SC * nn / (b['W'][0] * s * math.sqrt(b['H'][0])) / w_lo * (1 + 1e-9))
            hlo = min(hlo, math.sqrt(b['H'][0])); Plo = min(Plo, b['P'][0]); Qlo = min(Qlo, b['Q'][0])
    return res, hlo, Plo, Qlo

def ev(D, t):
    """evaluate a term whose value may be a quotient"""
    st = [t]
    while st:
        x = st[-1]
        if x.id in D.memo: st.pop(); continue
        todo = [y for y in D.need(x) if is_t(y) and y.id not in D.memo]
        if todo: st += todo; continue
        D.memo[x.id] = D.node(x); st.pop()

def relerr(D, e, m, lo, n):
    """sup of E / (monomial m * a0^n * lo); error terms that lack a factor of m other than C are returned apart"""
    rel = 0.0; ab = 0.0
    for q, c in e.items():
        num = list(q); den = list(m) + [A] * n
        for i in list(num):
            if i in den: num.remove(i); den.remove(i)
        if S in den:      # underflow: bounded against the denominator's size instead
            den.remove(S); b = c * D.bounds(num)[1] / D.bounds(den + [C])[0] / lo; ab = up(ab + b * 2)
        else: rel = up(rel + c * D.bounds(num)[1] / D.bounds(den)[0] / lo * (1 + 1e-12))
    return rel, ab

def height(D, hgt, num, den, g, n1, d1, hlo, n, k):
    """-> (_, (rounding error, mismatch of the constants)) in metres"""
    W, H = 5, 6
    sqh = padd(pmul(n1, n1), pmul(d1, d1))
    # the code's own constant for 1-e2 is read off its square root
    D.rng[W] = (0.0, math.inf); D.rng[H] = (0.0, math.inf)
    D.roots = []
    h = resolve(D, hgt)
    cands = set()
    for q in subterms([h]):
        if q.op == 'fsqrt': cands.add(q)
    f = Q(F_); ec2 = (1 - f)**2
    n2, d2 = pmul(n1, n1), pmul(d1, d1)
    amax = D.rng[A][1]
    # H = a0^n * [hlo, hhi]; treat the two roots as symbols bounded relative to a0^n through their squares
    hb = lambda p_: math.sqrt(sum(c * D.bounds(m)[1] for m, c in D.mag(p_).items()))
    D.rng[H] = (dn(hlo * D.rng[A][0]**n), up(hb(sqh)))
    eps = None
    D.roots.append((H, sqh, hlo))
    # find the other root: argument of the form ec2' num^2 + den^2 (up to the common monomial squared)
    for q in cands:
        try: ev(D, q.args[0]); p, e = D.memo[q.args[0].id]
        except Unsupported: continue
        if p is None: continue
        m = D.common(p); m = tuple(i for i in sorted(set(m)) for _ in range(m.count(i) // 2 * 2))
        rest = {sub_mono(x, m): c for x, c in p.items()}
        if D.nf2(padd(rest, sqh, -1)) == {}: continue
        lead = next((m for m in n2 if m not in d2), None)
        if lead not in rest: continue
        kk = rest[lead] / n2[lead]
        if D.nf2(padd(padd(rest, d2, -1), pscale(n2, kk), -1)) == {}:
            eps = abs(kk - ec2) / ec2
            sqw = padd(pscale(n2, kk), d2)
            D.rng[W] = (dn(hlo * 0.99 * D.rng[A][0]**n), up(hb(sqw))); D.roots.append((W, sqw, hlo * 0.99))
            break
    if eps is None or eps > Q(1, 10**9): raise Unsupported('the height does not use sqrt(ec2 sin^2 + cos^2)')
    ev(D, h); v = D.memo[h.id]
    if v[0] is not None or v[1][0] != 'quot' or v[1][1] != 1: raise Unsupported('the height is not a quotient')
    (hn, he), (hd, hde) = v[1][2], v[1][3]
    gh = tuple(sorted(g + (H,)))
    if D.nf2(padd(hd, {gh: Q(1)}, -1)) != {}: raise Unsupported('denominator of the height')
    kq = Q(k) * Q(A_)
    want = padd(padd(pmul({(A, C): kq}, den), pmul({(A, S): Q(A_)}, num)), {tuple(sorted(g + (W,))): Q(A_)}, -1)
    diff = D.nf2(padd(hn, want, -1))
    # constants such as a computed radius may differ slightly
    def size(p_):
        """sup of p / (g H), metres"""
        s = 0.0
        for m, c in p_.items():
            num_ = list(m); den_ = list(g) + [H]
            for i in list(num_):
                if i in den_: num_.remove(i); den_.remove(i)
            x = abs(float(c)) if not isinstance(c, float) else c
            # W/H <= 1.01 and 1/H <= 1/(hlo a0^n)
            if H in den_:
                den_.remove(H)
                if W in num_: num_.remove(W); x *= 1.01 * (1 / 0.99)
                else:
                    x /= hlo; dA = [A] * n
                    for i in list(num_):
                        if i == A and dA: num_.remove(A); dA.pop()
                    den_ += dA
            s = up(s + up(x * D.bounds(num_)[1] / D.bounds(den_)[0] * (1 + 1e-12)))
        return s
    rd = size_rel = size(hde)                      # error of g H relative to g H
    if not rd <= 1e-3: raise Unsupported('inaccurate height')
    rmax_h = A_ * amax * 1.01 + A_
    err = size(he) + rd * 1.01 * rmax_h + U * rmax_h + size(D.mag(diff))
    # W with the code's constant against the exact flattening
    return None, (err, up(float(eps) * A_))

# ------------------------------------------------------------------ replay
def cases(rng, n, k):
    out = [('wgs84', [])] if k == 0 else []
    for _ in range(n):
        r = rng.choice([6378137.0 + rng.uniform(-3e5, 5e5), 10.0**rng.uniform(math.log10(RMIN * 1.0001), 9), rng.uniform(6e6, 6.9e6)])
        t = rng.choice([rng.uniform(-math.pi / 2, math.pi / 2), 0.0, math.pi / 2, -math.pi / 2, rng.choice([-1, 1]) * (math.pi / 2 - 10.0**rng.uniform(-17, -1)), 10.0**rng.uniform(-12, -1)])
        l = rng.choice([rng.uniform(-math.pi, math.pi), rng.randint(-4, 4) * math.pi / 4])
        p = r * math.cos(t); z = r * math.sin(t)
        q = rng.randint(0, 9)
        if q == 0: p, z = 0.0, rng.choice([-1, 1]) * r
        elif q == 1: p, z = 10.0**rng.uniform(-170, -5), rng.choice([-1, 1]) * r
        v = [p * math.cos(l), p * math.sin(l), z]
        if not RMIN <= math.sqrt(sum(e * e for e in v)) <= 1e9: continue
        out.append(('gc2gd_rt', v))
    return out
def judge(case, out):
    o, a = case
    if out[0] != 'ok': return 'expected a value'
    if o == 'wgs84': return None if out[1] == [A_, F_] else 'WGS84 is not the ellipsoid 6378137 m, 1/298.257223563'
    lon, phi, h = out[1][:3]; back = out[1][3:6]; m = out[1][6:9]
    if not all(map(math.isfinite, out[1])): return 'not finite'
    r = math.sqrt(sum(e * e for e in a))
    tol = next(t for R, t in TIERS if r <= R * (1 + 1e-12))
    mp = mpmath.mp
    d = mp.sqrt(sum((mp.mpf(u) - mp.mpf(v))**2 for u, v in zip(back, a)))
    if not d <= tol: return 'converting back is off by %s m' % mp.nstr(d, 5)
    if abs(phi) > math.pi / 2: return 'latitude out of range'
    if math.hypot(a[0], a[1]) > 1e-9 and not abs(lon - math.atan2(a[1], a[0])) <= 1e-15: return 'longitude is not atan2(y,x)'
    if a[2] != 0 and (m[0] != lon or m[1] != -phi or m[2] != h): return 'not mirrored when z changes sign'
    if a[0] == a[1] == 0 and (abs(phi) != math.pi / 2 or abs(h - (abs(a[2]) - A_ * (1 - F_))) > 1e-6): return 'wrong on the axis'
