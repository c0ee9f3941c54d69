"""Exact-real abstraction of straight-line floating-point code with a rigorous rounding bound.

Every IEEE double of the code is described by
  p    the real number it stands for: a polynomial with exact rational coefficients
       over the inputs and over atoms sin(q), cos(q) of such polynomials
  e    a bound on |computed - p| (modulo the periods)
  lo,hi  an interval containing the computed double
  per  periods: the double equals p plus integer multiples (each at most K) of the M's
The contract of a libm function is: sin and cos within LIBM of the exact value, result in [-1,1].
An obligation |computed - spec| <= tol is discharged when sup|p - spec| + e <= tol."""
import bisect, math
from fractions import Fraction as Q
import mpmath
from .term import *
from .exec import Unsupported

mpmath.mp.dps = 60
PI = Q(str(mpmath.nstr(mpmath.pi, 58)))
PI_ERR = 1e-56
U = 2.0**-53
ETA = 2.0**-1074
LIBM = 2.0**-52       # trusted: libm sin/cos within one unit in the last place of values up to 1
SLOP = 1 + 1e-13      # covers the rounding of this analyser's own float arithmetic
def up(x): return x * SLOP if x >= 0 else x / SLOP
def dn(x): return -up(-x)

class V:
    __slots__ = ('p', 'e', 'lo', 'hi', 'per', 'own')
    def __init__(self, p, e, lo, hi, per=()): self.p = p; self.e = e; self.lo = lo; self.hi = hi; self.per = per; self.own = False
    def mag(self): return max(abs(self.lo), abs(self.hi))

def mul_iv(a, b):
    c = (a[0]*b[0], a[0]*b[1], a[1]*b[0], a[1]*b[1])
    return dn(min(c)), up(max(c))

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + c * k
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pscale(p, k): return {m: c * k for m, c in p.items()} if k else {}
def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n)) if m and n else m + n
            x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def pconst(c): return {(): Q(c)} if c else {}

class Ideal:
    def __init__(self):
        self.syms = []           # (name, lo, hi, fn, poly)
        self.byname = {}
        self.inputs = {}         # code variable name -> V
        self.atoms = {'sin': [], 'cos': []}     # sorted (leading coefficient, symbol)
        self.exact = {}
        self.memo = {}
        self.calls = 0
        self.opaque = {}         # term id -> V
        self.facts = {}          # boolean term id -> bool

    # ------------------------------------------------------------- symbols
    def sym(self, name, lo, hi, fn=None, poly=None):
        i = self.byname.get(name)
        if i is not None: return i
        i = len(self.syms); self.syms.append((name, float(lo), float(hi), fn, poly)); self.byname[name] = i
        return i
    def input(self, name, poly, lo, hi): self.inputs[name] = V(poly, 0.0, float(lo), float(hi))
    def x(self, name): return {(self.byname[name],): Q(1)}

    def mono_iv(self, m):
        lo = hi = 1.0; i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]: j += 1
            a, b = self.syms[m[i]][1], self.syms[m[i]][2]
            k = j - i
            if k > 1:
                if k % 2 == 0:
                    M = max(abs(a), abs(b)) ** k; mn = 0.0 if a <= 0 <= b else min(abs(a), abs(b)) ** k
                    a, b = dn(mn), up(M)
                else: a, b = dn(a ** k), up(b ** k)
            lo, hi = mul_iv((lo, hi), (a, b)); i = j
        return lo, hi
    def range(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            a, b = self.mono_iv(m); c = float(c)
            x, y = (a * c, b * c) if c >= 0 else (b * c, a * c)
            lo = dn(lo + dn(x)); hi = up(hi + up(y))
        # float sums may cancel: widen by the magnitude of the terms
        w = sum(abs(float(c)) * max(map(abs, self.mono_iv(m))) for m, c in p.items()) * 1e-13
        return lo - w, hi + w
    def sup(self, p):
        s = 0.0
        for m, c in p.items():
            a, b = self.mono_iv(m); s += abs(float(c)) * max(abs(a), abs(b))
        return up(s)

    # --------------------------------------------------------------- atoms
    def lead(self, p):
        b = None
        for m, c in p.items():
            if m and (b is None or (abs(c), m) > b): b = (abs(c), m)
        return b
    def nearest_turns(self, c): return round(c / (2 * PI))
    def atom(self, fn, p, tol=1e-6):
        """-> (coefficient, symbol or None for a number, error)"""
        if not any(p):       # constant argument
            c = p.get((), Q(0))
            if c == 0: return (Q(0) if fn == 'sin' else Q(1)), None, 0.0
            v = mpmath.mpf(c.numerator) / c.denominator
            v = mpmath.sin(v) if fn == 'sin' else mpmath.cos(v)
            return Q(mpmath.nstr(v, 50)), None, 1e-48
        k = (fn, frozenset(p.items()))
        s = self.exact.get(k)
        if s is not None: return s
        a, m = self.lead(p); a = float(a)
        L = self.atoms[fn]
        i = bisect.bisect_left(L, (a * (1 - 1e-7) - 1e-300, -1))
        best = None
        while i < len(L) and L[i][0] <= a * (1 + 1e-7):
            s = L[i][1]; q = self.syms[s][4]
            for sg in (1, -1):
                d = padd(p, q, -sg)
                n = self.nearest_turns(d.get((), Q(0)))
                d = padd(d, {(): 2 * PI * n}, -1) if n else d
                e = self.sup(d) + abs(n) * PI_ERR
                if e <= tol and (best is None or e < best[2]): best = (Q(sg if fn == 'sin' else 1), s, e)
            i += 1
        if best is None:
            s = self.sym('%s#%d' % (fn, len(self.syms)), -1, 1, fn, dict(p))
            bisect.insort(L, (a, s)); best = (Q(1), s, 0.0)
        self.exact[k] = best
        return best
    def trig(self, fn, p):
        """spec side: the polynomial denoting sin/cos of the polynomial p (exact)"""
        c, s, e = self.atom(fn, p, tol=0.0)
        return {(s,): c} if s is not None else pconst(c)

    # ---------------------------------------------------------- evaluation
    def eval(self, roots):
        ts = [t for t in subterms(roots) if t.id not in self.memo]
        uses = {}
        for t in ts:
            for a in t.args:
                if is_t(a): uses[a.id] = uses.get(a.id, 0) + 1
        for r in roots:
            if is_t(r): uses[r.id] = uses.get(r.id, 0) + 10**6
        for t in ts:
            if t.sort != 'f': continue
            self.memo[t.id] = self.node(t, uses)
            for a in t.args:
                if is_t(a) and a.sort == 'f':
                    uses[a.id] -= 1
        for t in ts:
            v = self.memo.get(t.id)
            if v is not None: v.own = False
        return [self.val(r) for r in roots]

    def val(self, a):
        if is_t(a):
            v = self.memo.get(a.id)
            if v is None: raise Unsupported('ideal value of ' + a.op)
            return v
        a = float(a)
        if not math.isfinite(a): raise Unsupported('infinite or NaN constant')
        return V(pconst(Q(a)), 0.0, a, a)

    def fin(self, p, e, lo, hi, per, exact=False, tiny=0.0):
        """close a node: one rounding of the exact operation"""
        m = max(abs(lo), abs(hi))
        if not m < 1e300: raise Unsupported('possible overflow')
        if not exact:
            e = up(e + U * m + tiny)
            lo = dn(lo - U * m - tiny) ; hi = up(hi + U * m + tiny)
        if not per and len(p) <= 12:
            a, b = self.range(p)
            lo = max(lo, dn(a - e)); hi = min(hi, up(b + e))
        return V(p, e, lo, hi, per)

    def node(self, t, uses):
        o = t.op
        if t.id in self.opaque: return self.opaque[t.id]
        if o == 'var':
            v = self.inputs.get(t.args[0])
            if v is None: raise Unsupported('input ' + str(t.args[0]))
            return v
        if o == 'ite': return self.ite(t)
        if o == 'i2f':
            a = t.args[0]
            raise Unsupported('i2f of a symbolic integer')
        a = self.val(t.args[0])
        b = self.val(t.args[1]) if len(t.args) > 1 else None
        if o in ('fadd', 'fsub'):
            k = 1 if o == 'fadd' else -1
            y = t.args[1]
            if k == -1 and is_t(y) and y.op in ('ffloor', 'ftrunc', 'fround') and y.args[0] is t.args[0]:
                # fractional part: exact, except floor of a tiny negative number
                lo, hi = (0.0, 1.0) if y.op == 'ffloor' or (y.op == 'ftrunc' and a.lo >= 0) else (-1.0, 1.0)
                return V(a.p, up(a.e + U), lo, hi, a.per + tuple(b.per))
            # steal the larger dict when this is its only use
            sa = is_t(t.args[0]) and uses.get(t.args[0].id) == 1 and a.own
            if sa: p = a.p; del self.memo[t.args[0].id]
            else: p = dict(a.p)
            for m, c in b.p.items():
                x = p.get(m, 0) + (c if k == 1 else -c)
                if x: p[m] = x
                else: p.pop(m, None)
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if k == 1 else (a.lo - b.hi, a.hi - b.lo)
            per = a.per + tuple(b.per)
            ex = (a.lo == a.hi == 0) or (b.lo == b.hi == 0)
            v = self.fin(p, a.e + b.e, lo if ex else dn(lo), hi if ex else up(hi), per, ex); v.own = True
            return v
        if o == 'fneg': return V(pscale(a.p, -1), a.e, -a.hi, -a.lo, a.per)
        if o == 'fabs':
            if a.lo >= 0: return a
            if a.hi <= 0: return V(pscale(a.p, -1), a.e, -a.hi, -a.lo, a.per)
            raise Unsupported('abs of a value of unknown sign')
        if o == 'ffma':
            c = self.val(t.args[2])
            if a.per or b.per or c.per: raise Unsupported('fused product of an angle known modulo a turn')
            lo, hi = mul_iv((a.lo, a.hi), (b.lo, b.hi))
            return self.fin(padd(pmul(a.p, b.p), c.p), up(a.mag() * b.e + b.mag() * a.e + a.e * b.e + c.e), dn(lo + c.lo), up(hi + c.hi), (), False, ETA)
        if o == 'fmul':
            ca, cb = a.lo == a.hi, b.lo == b.hi
            if a.per or b.per:
                if not (ca or cb): raise Unsupported('product of an angle known modulo a turn')
            if cb and not ca: a, b, ca, cb = b, a, cb, ca
            if ca:
                k = Q(a.lo)
                if k == 0: return V({}, 0.0, 0.0, 0.0)
                lo, hi = sorted((a.lo * b.lo, a.lo * b.hi))
                pw = abs(math.frexp(a.lo)[0]) == 0.5 and abs(a.lo) >= 1
                return self.fin(pscale(b.p, k), up(abs(a.lo) * b.e), lo if pw else dn(lo), hi if pw else up(hi), tuple((M * k, K) for M, K in b.per), pw, ETA)
            lo, hi = mul_iv((a.lo, a.hi), (b.lo, b.hi))
            if t.args[0] is t.args[1]: lo = max(lo, 0.0)
            return self.fin(pmul(a.p, b.p), up(a.mag() * b.e + b.mag() * a.e + a.e * b.e), lo, hi, (), False, ETA)
        if o == 'fdiv':
            if b.lo != b.hi or b.lo == 0: raise Unsupported('division by a variable')
            k = 1 / Q(b.lo)
            lo, hi = sorted((a.lo / b.lo, a.hi / b.lo))
            return self.fin(pscale(a.p, k), up(a.e / abs(b.lo)), dn(lo), up(hi), tuple((M * k, K) for M, K in a.per), False, ETA)
        if o == 'frem':
            if b.lo != b.hi or b.lo <= 0: raise Unsupported('remainder by a variable')
            M = b.lo
            if a.mag() < M: return a
            lo = 0.0 if a.lo >= 0 else -M; hi = 0.0 if a.hi <= 0 else M
            return V(a.p, a.e, lo, hi, a.per + ((Q(M), math.floor(a.mag() / M) + 1),))
        if o in ('fsin', 'fcos'):
            fn = o[1:]; e = a.e
            for M, K in a.per:
                n = round(M / (2 * PI))
                d = abs(float(M - 2 * PI * n)) + abs(n) * PI_ERR
                if n == 0: d = abs(float(M))
                e += up(K * d)
            if e > 1e-3: raise Unsupported('angle known modulo something else than a turn')
            c, s, e2 = self.atom(fn, a.p)
            p = {(s,): c} if s is not None else pconst(c)
            v = V(p, up(e + e2 + LIBM), -1.0, 1.0)
            if s is None:
                f = float(c); v.lo = max(-1.0, dn(f - v.e) - 1e-300); v.hi = min(1.0, up(f + v.e) + 1e-300)
            elif fn == 'sin' and not a.per and a.mag() < 1.5:
                v.lo = max(-1.0, dn(math.sin(a.lo) - LIBM * 2)); v.hi = min(1.0, up(math.sin(a.hi) + LIBM * 2))
            elif fn == 'cos' and not a.per and a.mag() < 3:
                v.lo = max(-1.0, dn(min(math.cos(a.lo), math.cos(a.hi)) - LIBM * 2))
                if not a.lo <= 0 <= a.hi: v.hi = min(1.0, up(max(math.cos(a.lo), math.cos(a.hi)) + LIBM * 2))
            return v
        if o in ('ffloor', 'fceil', 'ftrunc', 'fround', 'frint'):    # some integer
            f = FOLD.get(o) or c_round
            lo, hi = f(a.lo) - (o == 'frint'), f(a.hi) + (o == 'frint')
            return V({}, 0.0, lo, hi, ((Q(1), int(max(abs(lo), abs(hi))) + 1),))
        raise Unsupported('ideal ' + o)

    def truth(self, c):
        if not is_t(c): return c
        if c.id in self.facts: return self.facts[c.id]
        if c.op == 'not':
            x = self.truth(c.args[0]); return None if x is None else not x
        if c.op == 'and':
            x, y = self.truth(c.args[0]), self.truth(c.args[1])
            if x is False or y is False: return False
            return True if x and y else None
        if c.op in ('flt', 'fle', 'feq'):
            for a in c.args:
                if is_t(a) and a.id not in self.memo: return None
            a, b = self.val(c.args[0]), self.val(c.args[1])
            if c.op == 'flt': return True if a.hi < b.lo else (False if a.lo >= b.hi else None)
            if c.op == 'fle': return True if a.hi <= b.lo else (False if a.lo > b.hi else None)
            return False if a.hi < b.lo or a.lo > b.hi else None
        if c.op == 'fisnan': return False if (not is_t(c.args[0]) or c.args[0].id in self.memo) else None
        return None

    def ite(self, t):
        x = self.truth(t.args[0])
        if x is not None: return self.val(t.args[1 if x else 2])
        a, b = self.val(t.args[1]), self.val(t.args[2])
        d = padd(a.p, b.p, -1)
        per = {}
        for v in (a, b):
            for M, K in v.per: per[M] = max(per.get(M, 0), K)
        e = max(a.e, b.e)
        if d:
            if set(d) == {()}:
                c = d[()]
                for M in sorted(per, key=float):
                    n = c / M
                    r = round(n)
                    rest = abs(float(c - r * M))
                    if abs(r) <= 4 and rest < 1e-9:
                        per[M] += abs(r); e += rest; d = None; break
            if d and self.sup(d) < 1e-6: e += self.sup(d); d = None    # values nearly equal
            if d: raise Unsupported('branches compute different quantities')
        return V(a.p, e, min(a.lo, b.lo), max(a.hi, b.hi), tuple(per.items()))

    # --------------------------------------------------------- obligations
    def distance(self, v, spec, turns=False):
        """rigorous bound of |computed - spec|, and a description of the largest differences"""
        d = padd(v.p, spec, -1); e = v.e
        if v.per and not turns: raise Unsupported('known modulo a period only')
        if turns:
            n = self.nearest_turns(d.get((), Q(0)))
            if n: d = padd(d, {(): 2 * PI * n}, -1)
            for M, K in v.per:
                k = round(M / (2 * PI))
                e += K * abs(float(M - 2 * PI * k))
        top = sorted(d, key=lambda m: -abs(float(d[m])) * max(map(abs, self.mono_iv(m))))[:4]
        return self.sup(d) + e, e, ['%.3g*%s' % (float(d[m]), '*'.join(self.syms[i][0] if self.syms[i][3] is None else self.syms[i][3] + '(' + self.pshow(self.syms[i][4]) + ')' for i in m)) for m in top]
    def pshow(self, p):
        s = sorted(p.items(), key=lambda x: -abs(x[1]))[:4]
        return ' + '.join('%.9g%s' % (float(c), ''.join('*' + self.syms[i][0] for i in m)) for m, c in s) + (' + ..' if len(p) > 4 else '')

    def deriv(self, p, s):
        """d p / d symbol s -> (poly, error)"""
        r = {}; e = 0.0
        for m, c in p.items():
            for i, k in enumerate(m):
                rest = m[:i] + m[i+1:]
                name, lo, hi, fn, q = self.syms[k]
                if k == s: r = padd_in(r, {rest: c})
                elif fn:
                    dq, e1 = self.deriv(q, s)
                    if not dq: continue
                    cc, ss, e2 = self.atom('cos' if fn == 'sin' else 'sin', q)
                    f = {(ss,): cc} if ss is not None else pconst(cc)
                    if fn == 'cos': f = pscale(f, -1)
                    mm = max(map(abs, self.mono_iv(rest))) * abs(float(c))
                    e += up(mm * (self.sup(dq) * e2 + e1))
                    r = padd_in(r, pmul(pmul(dq, f), {rest: c}))
        return r, e

def padd_in(r, q):
    for m, c in q.items():
        x = r.get(m, 0) + c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
