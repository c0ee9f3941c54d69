"""Exact-real abstraction with symbolic rounding bounds.

Like vf/ideal.py, but the inputs may be arbitrary reals over wide ranges: an error bound is
a polynomial with non-negative coefficients in the magnitudes of the `scale' symbols (vector
components, radii, heights ..), so that a bound such as 4u(|x1 y1| + |x2 y2| + |x3 y3|) can be
proved for all inputs.  The exact value is a polynomial over symbols related by rewrite rules
(cos^2 = 1 - sin^2, n^2 = x^2+y^2+z^2, n * (1/n) = 1 ..); square roots, quotients and inverse
trigonometric functions are resolved against candidates supplied by the specification: e.g. a
square root is recognised as candidate C when C >= 0 and C^2 equals its argument identically."""
import math
from fractions import Fraction as Q
from .term import *
from .exec import Unsupported
from .ideal import padd, pscale, pmul, pconst, padd_in, up, dn, U, ETA, LIBM, PI, SLOP

class W:
    __slots__ = ('p', 'e', 'lo', 'hi')
    def __init__(self, p, e, lo, hi): self.p = p; self.e = e; self.lo = lo; self.hi = hi

def aadd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items(): r[m] = up(r.get(m, 0.0) + c)
    return r
def ascale(p, k): return {m: up(c * k) for m, c in p.items()} if k else {}

class Exact:
    def __init__(self, opaque_trig=False):
        self.syms = []; self.byname = {}
        self.rules = []          # (lead multiset as dict, poly)
        self.arules = []         # magnitude rules: (lead, factor): product of magnitudes <= factor
        self.inputs = {}; self.opaque = {}; self.memo = {}; self.facts = {}
        self.roots = []          # candidate square roots (poly, lower bound)
        self.known = []          # (poly, lo, hi): bounds of exact quantities
        self.invs = []           # (poly, its inverse as a poly)
        self.angles = {}         # angle symbol -> (sin poly, cos poly)
        self.atans = []          # (poly of tan, angle poly, magnitude of the derivative)
        self.atan2s = []         # (poly sin, poly cos, angle poly)
        self.opaque_trig = opaque_trig
        self.trig = {}           # opaque argument key -> (sin symbol, cos symbol)
        self.nonan = set()       # opaque angle arguments (terms) that must be finite
        self.acosargs = []

    def sym(self, name, lo, hi, scale=False):
        i = self.byname.get(name)
        if i is not None: return i
        i = len(self.syms); self.syms.append((name, float(lo), float(hi), scale)); self.byname[name] = i
        return i
    def x(self, s): return {(s,): Q(1)}
    def input(self, name, lo, hi, scale=False, poly=None):
        if poly is None: poly = self.x(self.sym(name, lo, hi, scale))
        self.inputs[name] = W(poly, {}, float(lo), float(hi))
        return poly
    def angle(self, name, lo=-1e300, hi=1e300, sin=(-1, 1), cos=(-1, 1), scale=False):
        """an angle symbol with its sine and cosine"""
        a = self.sym(name, lo, hi); s = self.sym('sin ' + name, *sin, scale=scale); c = self.sym('cos ' + name, *cos, scale=scale)
        self.rule((c, c), padd(pconst(1), {(s, s): Q(1)}, -1))
        self.angles[a] = (self.x(s), self.x(c))
        return a, s, c
    def rule(self, lead, poly): self.rules.append((tuple(sorted(lead)), poly))

    # ------------------------------------------------------------ normal form
    def nf(self, p):
        if not self.rules: return p
        todo = dict(p); out = {}; fuel = 200000
        while todo:
            m, c = todo.popitem()
            fuel -= 1
            if fuel < 0: raise Unsupported('normal form')
            for lead, q in self.rules:
                rest = sub_mono(m, lead)
                if rest is not None:
                    for n, d in q.items(): padd_in(todo, {tuple(sorted(rest + n)): c * d})
                    break
            else: padd_in(out, {m: c})
        return out
    def zero(self, p): return not self.nf(p)

    # ------------------------------------------------------------- magnitudes
    def bound(self, s): return max(abs(self.syms[s][1]), abs(self.syms[s][2]))
    def amono(self, m, c):
        """magnitude of a monomial -> (monomial over scale symbols, coefficient)"""
        sc = []; c = abs(float(c))
        for s in m:
            if self.syms[s][3]: sc.append(s)
            else: c *= self.bound(s)
        sc = tuple(sc)
        ch = True
        while ch:
            ch = False
            for lead, rep, f in self.arules:
                r = sub_mono(sc, lead)
                if r is not None: sc = tuple(sorted(r + rep)); c *= f; ch = True
        return sc, max(up(c), ETA)
    def absof(self, p):
        r = {}
        for m, c in p.items():
            k, v = self.amono(m, c); r[k] = up(r.get(k, 0.0) + v)
        return r
    def amul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k, v = self.amono(tuple(sorted(m + n)), c * d); r[k] = up(r.get(k, 0.0) + v)
        return r
    def num(self, a):
        """numeric bound of a magnitude polynomial"""
        s = 0.0
        for m, c in a.items():
            for x in m: c *= self.bound(x)
            s += c
        return up(s)
    def arule(self, lead, rep, f): self.arules.append((tuple(sorted(lead)), tuple(sorted(rep)), f))

    # ------------------------------------------------------------- evaluation
    def eval(self, roots):
        for t in subterms(roots):
            if t.sort == 'f' and t.id not in self.memo: self.memo[t.id] = self.node(t)
        return [self.val(r) for r in roots]
    def val(self, a):
        if is_t(a):
            v = self.memo.get(a.id)
            if v is None: raise Unsupported('exact value of ' + a.op)
            if isinstance(v, Unsupported): raise v
            return v
        a = float(a)
        if not math.isfinite(a): raise Unsupported('infinite or NaN constant')
        return W(pconst(Q(a)), {}, a, a)
    def close(self, p, e, lo, hi, exact=False, tiny=0.0):
        p = self.nf(p)
        a = self.absof(p)
        if not exact:
            m = self.num(a)
            if not m < 1e305: raise Unsupported('possible overflow')
            # one rounding; the second-order part is covered by (1+u)
            e = aadd(ascale(e, 1 + 2 * U), ascale(a, U))
            if tiny: e = aadd(e, {(): tiny})
        n = self.num(aadd(a, e))
        if 1 < len(p) <= 6:      # range of the exact value (even powers are not negative), widened by the error
            x, y = self.prange(p); k = self.num(e)
            lo = max(lo, dn(x - k)); hi = min(hi, up(y + k))
        for P, x, y in self.known:
            if len(P) == len(p) and self.zero(padd(p, P, -1)):
                k = self.num(e); lo = max(lo, dn(x - k)); hi = min(hi, up(y + k))
        if len(p) == 1:      # k*x with x > 0: the computed value keeps its sign
            (m, c), = p.items()
            if len(m) == 1 and c > 0 and self.syms[m[0]][1] > 0 and set(e) <= {m, ()}:
                x = self.syms[m[0]][1]
                lo = max(lo, dn(dn(float(c) * x) - up(e.get(m, 0.0) * x) - e.get((), 0.0)))
        # lo, hi: roundings of the extreme exact values; rounding is monotone
        return W(p, e, max(lo, -n), min(hi, n))

    def prange(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            a = b = float(c); w = abs(a) * 1e-15; i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]: j += 1
                x, y = self.syms[m[i]][1:3]; k = j - i
                X = max(abs(x), abs(y)) ** k
                if k % 2 == 0: x, y = (0.0 if x <= 0 <= y else min(abs(x), abs(y)) ** k), X
                elif k > 1: x, y = x ** k, y ** k
                q = [a * x, a * y, b * x, b * y]; a, b = min(q), max(q); w *= X; i = j
            if not (math.isfinite(a) and math.isfinite(b) and math.isfinite(w)): return -math.inf, math.inf
            lo = dn(lo + a - w); hi = up(hi + b + w)
        k = max(abs(lo), abs(hi)) * 1e-14
        return lo - k, hi + k
    def node(self, t):
        try: return self.node1(t)
        except Unsupported as e: return e
    def node1(self, t):
        o = t.op
        if t.id in self.opaque: return self.opaque[t.id]
        if o == 'var':
            v = self.inputs.get(t.args[0])
            if v is None: raise Unsupported('input ' + str(t.args[0]))
            return v
        if o in ('fsin', 'fcos') and self.opaque_trig: return self.trig_opaque(t)
        if o == 'ite':
            x = self.truth(t.args[0])
            if x is None:
                a, b = self.val(t.args[1]), self.val(t.args[2])
                if self.zero(padd(a.p, b.p, -1)):
                    e = {m: max(a.e.get(m, 0), b.e.get(m, 0)) for m in set(a.e) | set(b.e)}
                    return W(a.p, e, min(a.lo, b.lo), max(a.hi, b.hi))
                raise Unsupported('branches compute different quantities')
            return self.val(t.args[1 if x else 2])
        vs = [self.val(a) for a in t.args]
        a = vs[0]; b = vs[1] if len(vs) > 1 else None
        if o in ('fadd', 'fsub'):
            k = 1 if o == 'fadd' else -1
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if k == 1 else (a.lo - b.hi, a.hi - b.lo)
            ex = (not a.p and not a.e) or (not b.p and not b.e)
            return self.close(padd(a.p, b.p, k), aadd(a.e, b.e), lo, hi, ex)
        if o == 'fneg': return W(pscale(a.p, -1), a.e, -a.hi, -a.lo)
        if o == 'fabs':
            if a.lo >= 0: return a
            if a.hi <= 0: return W(pscale(a.p, -1), a.e, -a.hi, -a.lo)
            raise Unsupported('abs of a value of unknown sign')
        if o == 'fmul' or o == 'ffma':
            e = aadd(self.amul(self.absof(a.p), b.e), self.amul(self.absof(b.p), a.e), self.amul(a.e, b.e))
            q = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]; lo, hi = min(q), max(q)
            if t.args[0] is t.args[1]: lo = 0.0 if a.lo <= 0 <= a.hi else max(lo, 0.0)
            p = pmul(a.p, b.p)
            if o == 'ffma':
                c = vs[2]; return self.close(padd(p, c.p), aadd(e, c.e), dn(lo + c.lo), up(hi + c.hi), False, ETA)
            k = a.p if not a.e else (b.p if not b.e else None)
            ex = False
            for v in (a, b):
                if not v.e and set(v.p) <= {()}:
                    c = v.p.get((), Q(0))
                    if c == 0: return W({}, {}, 0.0, 0.0)
                    if abs(c) >= 1 and c.denominator == 1 and (abs(c).numerator & (abs(c).numerator - 1)) == 0: ex = True
            r = self.close(p, e, lo, hi, ex, ETA)
            if t.args[0] is t.args[1]: r.lo = max(r.lo, 0.0)
            return r
        if o == 'fdiv':
            inv = self.inverse(b)
            p = pmul(a.p, inv.p)
            e = aadd(self.amul(self.absof(a.p), inv.e), self.amul(self.absof(inv.p), a.e), self.amul(a.e, inv.e))
            q = [c_div(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]; lo, hi = min(q), max(q)
            return self.close(p, e, lo, hi, False, ETA)
        if o == 'fsqrt': return self.sqrt(a)
        if o in ('fsin', 'fcos'): return self.trig_value(t, a)
        if o == 'fatan': return self.atan(a)
        if o == 'fatan2': return self.atan2(a, b)
        raise Unsupported('exact ' + o)

    def inverse(self, b):
        """1/b, exactly (the rounding is the division's)"""
        if set(b.p) <= {()} and not b.e:
            c = b.p.get((), Q(0))
            if c == 0: raise Unsupported('division by zero')
            f = 1 / float(c)
            return W(pconst(1 / c), {}, min(dn(f), up(f)), max(dn(f), up(f)))
        if b.lo <= 0 <= b.hi: raise Unsupported('division by a value that may be zero')
        for C, K in self.invs:
            for sg in (1, -1):
                if self.zero(padd(b.p, C, -sg)):
                    aK = self.absof(K)
                    rel = self.num(self.amul(b.e, aK))
                    if not rel <= 0.25: raise Unsupported('relative error of a divisor')
                    # keep the scale structure: |1/b - K| <= |K| * e|K| * 4/3
                    e = ascale(self.amul(self.amul(b.e, aK), aK), 4 / 3)
                    lo, hi = sorted((1 / b.lo, 1 / b.hi))
                    return W(pscale(K, sg), e, dn(lo), up(hi))
        raise Unsupported('no candidate for an inverse')

    def sqrt(self, a):
        if a.lo < 0: raise Unsupported('square root of a value that may be negative')
        if not a.p and not a.e: return W({}, {}, 0.0, 0.0)
        for C, clo in self.roots:
            if self.zero(padd(pmul(C, C), a.p, -1)):
                # errors proportional to C^2 when C is a product of magnitudes, others absolutely
                aC = self.absof(C); rel = {}; rest = {}
                sq = None
                if len(C) == 1:
                    (m, k), = C.items()
                    if k > 0 and all(self.syms[i][3] for i in m) and aC == {m: aC.get(m)}: sq = tuple(sorted(m + m)); k2 = float(k) ** 2 / SLOP ** 4
                for m, v in a.e.items():
                    q = sub_mono(m, sq) if sq is not None else None
                    if q is None: rest[m] = v
                    else: rel[q] = up(rel.get(q, 0.0) + v / k2)
                c = self.num(rel)
                if not c <= 0.5: raise Unsupported('square root of an inaccurate value')
                rho = self.num(rest)
                e = ascale(self.amul(aC, rel), up(0.5 + c))     # 1 - sqrt(1-c) <= c/2 + c^2/2 for 0 <= c <= 1/2
                # |sqrt(v+d) - sqrt(v)| = |d| / (sqrt(v+d) + sqrt(v)), with sqrt(v) >= clo
                if rho: e = aadd(e, {(): up((0.54 if rho <= clo * clo / 4 else 1.01) * rho / clo) if clo > 0 else up(math.sqrt(rho))})
                lo, hi = math.sqrt(a.lo), math.sqrt(a.hi)
                return self.close(C, e, max(lo, 0.0), hi)
        raise Unsupported('no candidate for a square root')

    def trig_pair(self, t):
        k = key(t)
        r = self.trig.get(k)
        if r is None:
            n = len(self.trig)
            s = self.sym('s%d' % n, -1, 1); c = self.sym('c%d' % n, -1, 1)
            self.rule((c, c), padd(pconst(1), {(s, s): Q(1)}, -1))
            r = self.trig[k] = (s, c)
            self.nonan.add(t)
        return r
    def trig_opaque(self, t):
        a = t.args[0]; sg = 1
        if is_t(a) and a.op == 'fneg': a = a.args[0]; sg = -1
        elif not is_t(a) and a < 0: a = -a; sg = -1
        if not is_t(a) and a == 0: return W({}, {}, 0.0, 0.0) if t.op == 'fsin' else W(pconst(1), {}, 1.0, 1.0)
        s, c = self.trig_pair(a)
        if t.op == 'fsin': return W({(s,): Q(sg)}, {(): LIBM}, -1.0, 1.0)
        return W({(c,): Q(1)}, {(): LIBM}, -1.0, 1.0)

    def sincos(self, p):
        """sin and cos of a sum of +-angle symbols (exact)"""
        S, C = {}, pconst(1)
        for m, k in p.items():
            if len(m) != 1 or m[0] not in self.angles or k.denominator != 1 or abs(k) > 4: raise Unsupported('sine of ' + str(m))
            s, c = self.angles[m[0]]
            for _ in range(abs(int(k))):
                sg = 1 if k > 0 else -1
                S, C = self.nf(padd(pmul(S, c), pmul(C, pscale(s, sg)))), self.nf(padd(pmul(C, c), pmul(S, pscale(s, sg)), -1))
        return S, C
    def trig_value(self, t, a):
        S, C = self.sincos(a.p)
        return W(S if t.op == 'fsin' else C, aadd(a.e, {(): LIBM}), -1.0, 1.0)
    def atan(self, a):
        if not a.p and not a.e: return W({}, {}, 0.0, 0.0)
        for tn, ang, der in self.atans:       # der: magnitude of the derivative at the exact point
            for sg in (1, -1):
                if self.zero(padd(a.p, tn, -sg)):
                    if self.num(a.e) > 0.1: raise Unsupported('arc tangent of an inaccurate value')
                    # (1+t^2)/(1+u^2) <= 1.2 when |t-u| <= 0.1
                    return W(pscale(ang, sg), {(): up(1.2 * self.num(self.amul(a.e, der)) + LIBM)}, -1.6, 1.6)
        raise Unsupported('no candidate for an arc tangent')
    def atan2(self, y, x):
        if not y.p and not y.e and x.lo > 0: return W({}, {}, 0.0, 0.0)
        for s, c, ang in self.atan2s:
            if self.zero(padd(pmul(y.p, c), pmul(x.p, s), -1)):
                rho = self.nf(padd(pmul(x.p, c), pmul(y.p, s)))
                if len(rho) == 1:
                    (m, k), = rho.items()
                    if k > 0 and all(self.syms[i][1] >= 0 for i in m):
                        e = 0.0
                        if y.e or x.e:      # the point moves by at most ey+ex <= rho/4
                            lo = float(k)
                            for i in m: lo *= self.syms[i][1]
                            e = self.num(aadd(y.e, x.e))
                            if not e <= lo / 4: raise Unsupported('atan2 of inaccurate values')
                            e = up(1.02 * e / lo)      # a move by e <= rho/4 turns the point by at most asin(e/rho) <= 1.011 e/rho
                        return W(ang, {(): e + 2 * LIBM}, -3.2, 3.2)
        raise Unsupported('no candidate for atan2')

    def truth(self, c):
        if not is_t(c): return c
        if c.id in self.facts: return self.facts[c.id]
        if c.op == 'not':
            x = self.truth(c.args[0]); return None if x is None else not x
        if c.op == 'and':
            x, y = self.truth(c.args[0]), self.truth(c.args[1])
            if x is False or y is False: return False
            return True if x and y else None
        if c.op in ('flt', 'fle', 'feq'):
            try: a, b = self.val(c.args[0]), self.val(c.args[1])
            except Unsupported: return None
            if c.op == 'flt': return True if a.hi < b.lo else (False if a.lo >= b.hi else None)
            if c.op == 'fle': return True if a.hi <= b.lo else (False if a.lo > b.hi else None)
            return False if a.hi < b.lo or a.lo > b.hi else None
        return None

    def holds(self, g):
        if not is_t(g): return bool(g)
        for t in subterms([g]):
            if t.sort == 'f' and t.id not in self.memo: self.memo[t.id] = self.node(t)
        return self.truth(g) is True

    # -------------------------------------------------------------- obligation
    def within(self, v, spec, tol):
        """|computed - spec| <= tol (magnitude polynomial), coefficient by coefficient -> (ok, text)"""
        d = self.nf(padd(v.p, spec, -1))
        e = aadd(v.e, self.absof(d))
        bad = {m: c for m, c in e.items() if c > tol.get(m, 0.0)}
        # monomials without a partner may use the constant slack
        if bad:
            slack = tol.get((), 0.0) - e.get((), 0.0)
            rest = {m: c for m, c in bad.items() if m != () and m not in tol}
            if len(rest) == len(bad) and self.num(rest) <= slack: bad = {}
        def nm(m): return '*'.join(self.syms[i][0] for i in m) or '1'
        if not bad: return True, 'error bound ' + ' + '.join('%.3g*%s' % (c, nm(m)) for m, c in sorted(e.items())[:6])
        if d: return False, 'differs from the specified expression by ' + ' + '.join('%s*%s' % (float(c), nm(m)) for m, c in sorted(d.items(), key=lambda x: -abs(x[1]))[:6])
        return False, 'rounding error up to ' + ' + '.join('%.3g*%s' % (c, nm(m)) for m, c in list(bad.items())[:6])

def sub_mono(m, lead):
    """m minus the multiset lead, or None"""
    if len(lead) > len(m): return None
    r = list(m)
    for x in lead:
        try: r.remove(x)
        except ValueError: return None
    return tuple(r)
