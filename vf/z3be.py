"""Back end B1/B3a: Int/Bool terms exactly, IEEE doubles through the rounding
contracts of the IEEE-754 operations (every axiom below is a true statement
about correctly rounded binary64 arithmetic)."""
import math, time
from fractions import Fraction as Q
import z3
from .term import *

U = Q(1, 2**53)
ETA = Q(1, 2**1075)
BIG = Q(2**1024)
MAXF = Q(2**1024 - 2**971)
OVF = Q(2**1024 - 2**970)

def rv(q):
    q = Q(q)
    return z3.Q(q.numerator, q.denominator)

class FV:
    """nan: z3 Bool or False; v: z3 Real (+-2^1024 stands for the infinities);
    inf: may be infinite; g: the value is a multiple of 2^-g (None unknown)"""
    __slots__ = ('nan', 'v', 'inf', 'g')
    def __init__(self, nan, v, inf, g=None): self.nan = nan; self.v = v; self.inf = inf; self.g = g

def zor(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    return z3.Or(*a) if len(a) > 1 else a[0]
def zand(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    return z3.And(*a) if len(a) > 1 else a[0]
def znot(a):
    if a is True: return False
    if a is False: return True
    return z3.Not(a)
def zite(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, a, b)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def fgrid(x):
    q = Q(x); d = q.denominator.bit_length() - 1
    return d

class Z:
    def __init__(self, landmarks=(), assume_finite=(), domain=None, intshift=False, gaps=False):
        """domain: {var name: (lo, hi)} finite bounds for float variables;
        a float variable without an entry may be any double (NaN, inf)."""
        self.defs = []       # definitional axioms
        self.m = {}
        self.n = 0
        self.landmarks = set(Q(c) for c in landmarks) | {Q(0), Q(1), Q(-1)}
        self.domain = domain or {}
        self.rounded = []    # (exact, v) of every rounding
        self.vars = {}
        self.keep = []
        self.gaps = gaps; self.intshift = intshift; self.floats = []; self.remk = {}; self.ints = []

    def fresh(self, sort, nm='t'):
        self.n += 1
        nm = '%s!%d' % (nm, self.n)
        return {'r': z3.Real, 'i': z3.Int, 'b': z3.Bool}[sort](nm)

    def add(self, *c):
        for x in c:
            if x is not True: self.defs.append(zb(x))

    # ---------------------------------------------------------- generic
    def t(self, x):
        if not is_t(x):
            if x.__class__ is float: return self.fconst(x)
            if x.__class__ is bool: return x
            return z3.IntVal(x)
        r = self.m.get(x.id)
        if r is not None: return r
        for y in subterms([x]):
            if y.id not in self.m:
                self.m[y.id] = self.enc(y); self.keep.append(y)
        return self.m[x.id]

    def fconst(self, x):
        if math.isnan(x): return FV(True, z3.RealVal(0), False, 0)
        if math.isinf(x): return FV(False, rv(BIG if x > 0 else -BIG), True, 0)
        self.landmark(Q(x))
        return FV(False, rv(Q(x)), False, fgrid(x))

    def landmark(self, q):
        pass

    def enc(self, y):
        o = y.op; a = y.args
        T = self.t
        if o == 'var':
            if y.sort == 'i':
                v = z3.Int(a[0]); self.vars[a[0]] = v
                self.add(v >= y.lo, v <= y.hi); return v
            if y.sort == 'b': v = z3.Bool(a[0]); self.vars[a[0]] = v; return v
            return self.fvar(a[0])
        if o == 'not': return znot(T(a[0]))
        if o == 'and': return zand(T(a[0]), T(a[1]))
        if o == 'ite':
            c = T(a[0]); p = T(a[1]); q = T(a[2])
            if y.sort == 'f':
                if c is True: return p
                if c is False: return q
                nan = zite(c, p.nan if not isinstance(p.nan, bool) else z3.BoolVal(p.nan), q.nan if not isinstance(q.nan, bool) else z3.BoolVal(q.nan)) if not (p.nan is False and q.nan is False) else False
                g = None if p.g is None or q.g is None else max(p.g, q.g)
                v = self.fresh('r', 'ite'); self.add(v == z3.If(c, p.v, q.v))
                return FV(nan, v, p.inf or q.inf, g)
            if y.sort == 'b': return zb(zite(c, zb(p), zb(q)))
            return zite(c, p, q)
        if o == 'iadd': return T(a[0]) + T(a[1])
        if o == 'imul': return T(a[0]) * T(a[1])
        if o in ('idiv', 'irem'):
            return self.divrem(a[0], a[1])[0 if o == 'idiv' else 1]
        if o == 'wrap':
            x = T(a[0]); lo, hi = rng(a[1], a[2])
            w = self.fresh('i', 'wrap'); k = self.fresh('i', 'wk')
            self.add(w == x - (1 << a[1]) * k, w >= lo, w <= hi)
            self.add(z3.Implies(z3.And(x >= lo, x <= hi), z3.And(w == x, k == 0)))
            return w
        if o == 'ilt': return T(a[0]) < T(a[1])
        if o == 'ile': return T(a[0]) <= T(a[1])
        if o == 'ieq': return T(a[0]) == T(a[1])
        if o in ('flt', 'fle', 'feq'):
            p, q = T(a[0]), T(a[1])
            c = {'flt': p.v < q.v, 'fle': p.v <= q.v, 'feq': p.v == q.v}[o]
            if self.gaps:   # there is no double between a constant and its neighbours
                for x, k, t in ((p, a[1], a[0]), (q, a[0], a[1])):
                    if k.__class__ is float and is_t(t) and math.isfinite(k):
                        self.add(z3.Or(x.v == rv(k), x.v >= rv(math.nextafter(k, math.inf)), x.v <= rv(math.nextafter(k, -math.inf))))
            return zand(znot(p.nan), znot(q.nan), c)
        if o == 'fisnan': return T(a[0]).nan
        if o == 'uf':
            if y.sort == 'i':
                v = self.fresh('i', 'uf'); 
                if y.lo is not None: self.add(v >= y.lo, v <= y.hi)
                return v
            if y.sort == 'b': return self.fresh('b', 'uf')
            return self.anyfloat('uf')
        if o == 'i2f':
            x = T(a[0]); m = max(abs(a[0].lo), abs(a[0].hi))
            r = z3.ToReal(x)
            if m <= 2**53: return FV(False, r, False, 0)
            return self.rn(r, False, False, 0, exact_int=x)
        if o == 'f2i':
            return self.f2i(a[0], T(a[0]), a[1], a[2])
        if o == 'fsub' and is_t(a[1]) and a[1].op == 'ftrunc' and a[1].args[0] is a[0]:    # fractional part
            return T(mk('frem', (a[0], 1.0), 'f'))
        if y.sort == 'f': return self.fop(o, [T(x) for x in a], y)
        raise NotImplementedError('z3 encoding of ' + o)

    def divrem(self, a, b):
        k = ('dr', key(a), key(b))
        r = self.m.get(k)
        if r: return r
        x = self.t(a)
        q = self.fresh('i', 'q'); m = self.fresh('i', 'm')
        if not is_t(b):
            self.add(x == b * q + m)
            B = abs(b)
            lo = a.lo if is_t(a) else a; hi = a.hi if is_t(a) else a
            if lo >= 0: self.add(m >= 0, m < B)
            elif hi <= 0: self.add(m <= 0, m > -B)
            else: self.add(z3.If(x >= 0, z3.And(m >= 0, m < B), z3.And(m <= 0, m > -B)))
        else:
            y = self.t(b)
            ab = z3.If(y >= 0, y, -y)
            self.add(z3.Implies(y != 0, z3.And(x == y * q + m, z3.If(x >= 0, z3.And(m >= 0, m < ab), z3.And(m <= 0, m > -ab)))))
        self.m[k] = (q, m)
        return q, m

    # ---------------------------------------------------------- floats
    def fvar(self, name):
        v = z3.Real(name); self.vars[name] = v
        d = self.domain.get(name)
        if d is not None:
            if d[0] is not None: self.add(v >= rv(Q(d[0])))
            if d[1] is not None: self.add(v <= rv(Q(d[1])))
            if d[0] is None or d[1] is None: self.add(v >= rv(-MAXF), v <= rv(MAXF))
            if len(d) > 2 and d[2] is not None:  # multiple of 2^-g
                k = self.fresh('i', 'g'); self.add(v * rv(2**d[2]) == z3.ToReal(k)); return FV(False, v, False, d[2])
            return FV(False, v, False)
        nan = z3.Bool(name + '.nan'); self.vars[name + '.nan'] = nan
        self.add(v >= rv(-BIG), v <= rv(BIG), z3.Or(z3.And(v <= rv(MAXF), v >= rv(-MAXF)), v == rv(BIG), v == rv(-BIG)))
        self.add(z3.Implies(nan, v == 0))
        return FV(nan, v, True)

    def anyfloat(self, nm):
        v = self.fresh('r', nm); n = self.fresh('b', nm)
        self.add(v >= rv(-BIG), v <= rv(BIG))
        return FV(n, v, True)

    def isinf(self, p):
        if not p.inf: return False
        return z3.Or(p.v >= rv(BIG), p.v <= rv(-BIG))

    def rn(self, e, ovf, under, g=None, exact_int=None):
        """rounded value of the exact real e (assumed finite)"""
        k = ('rn', e.get_id(), bool(ovf), bool(under), g)
        if k in self.m: return self.m[k][0]
        k0 = (k, e)
        v = self.fresh('r', 'rn')
        if not z3.is_const(e):
            ee = self.fresh('r', 'ex'); self.add(ee == e); e = ee
        u = rv(U); eta = rv(ETA) if under else None
        d = v - e
        b = u * e
        if under:
            c = z3.If(e >= 0, z3.And(d <= b + eta, d >= -b - eta), z3.And(d <= -b + eta, d >= b - eta))
        else:
            c = z3.If(e >= 0, z3.And(d <= b, d >= -b), z3.And(d <= -b, d >= b))
        if ovf:
            self.add(z3.If(e >= rv(OVF), v == rv(BIG), z3.If(e <= rv(-OVF), v == rv(-BIG), z3.And(c, v <= rv(MAXF), v >= rv(-MAXF)))))
        else: self.add(c)
        for L in self.landmarks:
            l = rv(L)
            self.add(z3.Implies(e <= l, v <= l), z3.Implies(e >= l, v >= l))
        if g is not None and g <= 60:
            lim = rv(Q(2)**(53 - g))
            self.add(z3.Implies(z3.And(e <= lim, e >= -lim), v == e))
            k = self.fresh('i', 'k')
            self.add(v * rv(2**g) == z3.ToReal(k))
        if self.intshift:
            # a double w < 2^53 and an integer j with 0 <= w - j <= w: w - j is a double (multiple of ulp(w), not larger)
            for w in self.floats: self.add(z3.Implies(z3.And(e >= 0, e <= w, w < rv(2**53), z3.IsInt(w - e)), v == e))
            self.floats.append(v)
        self.rounded.append((e, v))
        self.m[k0[0]] = (FV(False, v, ovf, g), k0[1])
        return self.m[k0[0]][0]

    def integer(self, x, mode):
        """real x -> (fresh Int) trunc / floor / ceil / round"""
        n = self.fresh('i', mode); r = z3.ToReal(n)
        if mode == 'trunc': self.add(z3.If(x >= 0, z3.And(r <= x, x < r + 1), z3.And(r >= x, x > r - 1)))
        elif mode == 'floor': self.add(r <= x, x < r + 1)
        elif mode == 'ceil': self.add(r >= x, x > r - 1)
        elif mode == 'round': self.add(z3.If(x >= 0, z3.And(2*r - 1 <= 2*x, 2*x < 2*r + 1), z3.And(2*r - 1 < 2*x, 2*x <= 2*r + 1)))
        elif mode == 'rint': self.add(2*r - 1 <= 2*x, 2*x <= 2*r + 1)
        return n, r

    def trunc(self, t, p):
        """the integer part of a double, shared by casts, trunc, fract and the remainder by 1"""
        while is_t(t) and t.op == 'ftrunc': t = t.args[0]
        k = ('trunc', key(t))
        if k not in self.m:
            p = self.m[t.id] if is_t(t) else p
            n, r = self.integer(p.v, 'trunc'); self.ints.append(n)
            # every double of magnitude >= 2^52 is an integer
            self.add(z3.Implies(z3.Or(p.v >= rv(2**52), p.v <= rv(-2**52)), r == p.v))
            if is_t(t) and t.op == 'fdiv' and t.args[1].__class__ is float and t.args[1] == int(t.args[1]) and 0 < t.args[1] < 2**40:
                # trunc(fl(s/c)) = trunc(s/c) for a double s and a positive integer c while c*n is a double: the
                # double below c*n is more than half an ulp of n away once divided by c
                s = self.m[t.args[0].id]; C = rv(t.args[1]); lim = rv(2**52)
                self.add(z3.Implies(z3.And(s.v >= 0, s.v <= lim), z3.And(C * r <= s.v, s.v < C * (r + 1))),
                         z3.Implies(z3.And(s.v <= 0, s.v >= -lim), z3.And(C * r >= s.v, s.v > C * (r - 1))))
            self.m[k] = (n, r)
        return self.m[k]

    def f2i(self, t, p, nbits, signed):
        lo, hi = rng(nbits, signed)
        n, r = self.trunc(t, p)
        k = self.fresh('i', 'f2i')
        self.add(k == z3.If(n < lo, lo, z3.If(n > hi, hi, n)))
        if p.nan is False: return k
        return zite(p.nan, z3.IntVal(0), k)

    def fop(self, o, p, y):
        nan = zor(*[x.nan for x in p])
        a = p[0]; b = p[1] if len(p) > 1 else None
        if o == 'fneg': return FV(a.nan, -a.v, a.inf, a.g)
        if o == 'fabs': return FV(a.nan, z3.If(a.v >= 0, a.v, -a.v), a.inf, a.g)
        if o in ('ftrunc', 'ffloor', 'fceil', 'fround', 'frint'):
            if o == 'ftrunc':
                n, r = self.trunc(y.args[0], a); return FV(a.nan, r, a.inf, 0)
            if o == 'ffloor':
                n, q = self.trunc(y.args[0], a)
                iv = self.iv(y.args[0])
                if iv is not None and iv[0] >= 0: return FV(a.nan, q, a.inf, 0)
                k = self.fresh('i', 'floor'); self.add(k == z3.If(q > a.v, n - 1, n))
                return FV(a.nan, z3.ToReal(k), a.inf, 0)
            n, r = self.integer(a.v, o[1:]); self.ints.append(n)
            if o in ('fceil', 'fround', 'frint', 'ffloor'):
                # |x| >= 2^52 is already an integer
                self.add(z3.Implies(z3.Or(a.v >= rv(2**52), a.v <= rv(-2**52)), r == a.v))
            else: self.add(z3.Implies(z3.Or(a.v >= rv(2**52), a.v <= rv(-2**52)), r == a.v))
            return FV(a.nan, r, a.inf, 0)
        if o == 'fcopysign':     # the first operand is an absolute value; the sign of a zero is not modelled
            v = self.fresh('r', 'cps')
            self.add(z3.If(b.v > 0, v == a.v, z3.If(b.v < 0, v == -a.v, z3.Or(v == a.v, v == -a.v))))
            if b.nan is not False: self.add(z3.Implies(b.nan, z3.Or(v == a.v, v == -a.v)))
            return FV(a.nan, v, a.inf, a.g)
        if o in ('fmin', 'fmax'):
            c = a.v < b.v if o == 'fmin' else a.v > b.v
            v = z3.If(zb(a.nan), b.v, z3.If(zb(b.nan), a.v, z3.If(c, a.v, b.v)))
            return FV(zand(a.nan, b.nan), v, a.inf or b.inf, None if a.g is None or b.g is None else max(a.g, b.g))
        if o == 'fadd' and y.args[0].__class__ is float and y.args[0] == 0.0: return FV(b.nan, b.v, b.inf, b.g)
        if o in ('fadd', 'fsub'):
            e = a.v + b.v if o == 'fadd' else a.v - b.v
            g = None if a.g is None or b.g is None else max(a.g, b.g)
            bound = self.bounded(y)
            r = self.rn(e, not bound, False, g)
            # the operands are doubles, so the nearest double is at least as close to the sum as they are
            near = z3.And(r.v - e <= z3.If(a.v >= 0, a.v, -a.v), e - r.v <= z3.If(a.v >= 0, a.v, -a.v), r.v - e <= z3.If(b.v >= 0, b.v, -b.v), e - r.v <= z3.If(b.v >= 0, b.v, -b.v))
            self.add(near if bound else z3.Implies(z3.And(e < rv(OVF), e > rv(-OVF)), near))
            # x - fmod(x, 1) and x - trunc(x) are doubles: exact
            y0, y1 = y.args
            if o == 'fsub' and is_t(y1) and (y1.op == 'frem' and y1.args[0] is y0 and y1.args[1] == 1.0 or y1.op == 'ftrunc' and y1.args[0] is y0):
                self.add(r.v == e)
            if o == 'fsub' and is_t(y1) and y1.op == 'ffloor' and y1.args[0] is y0: self.add(z3.Implies(a.v >= 0, r.v == e))
            # a double w of magnitude <= 2^53 and an integer j with |w -+ j| <= |w|: a multiple of ulp(w), so exact
            w = a if a.g is None and b.g == 0 else b if b.g is None and a.g == 0 else None
            if w is not None:
                self.add(z3.Implies(z3.And(w.v >= 0, w.v <= rv(2**53), e <= w.v, e >= -w.v), r.v == e))
                self.add(z3.Implies(z3.And(w.v <= 0, w.v >= -rv(2**53), e >= w.v, e <= -w.v), r.v == e))
            # x + 0 = x exactly
            if y.args[1].__class__ is not float: self.add(z3.Implies(b.v == 0, r.v == a.v))
            if y.args[0].__class__ is not float: self.add(z3.Implies(a.v == 0, r.v == (b.v if o == 'fadd' else -b.v)))
            if not a.inf and not b.inf:
                return FV(nan, r.v, r.inf, g)
            ia, ib = self.isinf(a), self.isinf(b)
            sb = b.v if o == 'fadd' else -b.v
            bad = zand(ia, ib, (a.v > 0) != (sb > 0))
            v = self.fresh('r', 'add')
            self.add(v == zite(ia, a.v, zite(ib, sb, r.v)))
            return FV(zor(nan, bad), v, True, g)
        if o == 'fmul':
            r = self.rn(a.v * b.v, not self.bounded(y), True, None if a.g is None or b.g is None else (a.g + b.g if a.g + b.g < 60 else None))
            if not a.inf and not b.inf: return FV(nan, r.v, r.inf, r.g)
            ia, ib = self.isinf(a), self.isinf(b)
            bad = zor(zand(ia, b.v == 0), zand(ib, a.v == 0))
            v = self.fresh('r', 'mul')
            self.add(v == zite(zor(ia, ib), z3.If((a.v > 0) == (b.v > 0), rv(BIG), rv(-BIG)), r.v))
            return FV(zor(nan, bad), v, True, None)
        if o == 'fdiv':
            cst = y.args[1]
            if not is_t(cst) and cst != 0 and not math.isinf(cst) and not math.isnan(cst):
                r = self.rn(a.v * rv(1 / Q(cst)), not self.bounded(y), True)
                if not a.inf: return FV(nan, r.v, r.inf)
                ia = self.isinf(a); v = self.fresh('r', 'div')
                self.add(v == zite(ia, a.v if cst > 0 else -a.v, r.v))
                return FV(nan, v, True)
            q = self.fresh('r', 'quo')
            self.add(z3.Implies(b.v != 0, q * b.v == a.v))
            r = self.rn(q, True, True)
            bad = zand(a.v == 0, b.v == 0)
            v = self.fresh('r', 'div')
            if a.inf or b.inf:
                ia, ib = zb(self.isinf(a)), zb(self.isinf(b))
                bad = zor(bad, zand(ia, ib))
                self.add(z3.Implies(z3.And(b.v != 0, z3.Not(ia), z3.Not(ib)), v == r.v))
                self.add(z3.Implies(z3.And(ia, b.v != 0), v == z3.If((a.v > 0) == (b.v > 0), rv(BIG), rv(-BIG))))
                self.add(z3.Implies(z3.And(ib, z3.Not(ia)), v == 0))
            else: self.add(z3.Implies(b.v != 0, v == r.v))
            self.add(z3.Implies(z3.And(b.v == 0, a.v != 0), z3.Or(v == rv(BIG), v == rv(-BIG))))
            return FV(zor(nan, bad), v, True)
        if o == 'frem':
            c = y.args[1]
            if is_t(c) or c == 0 or math.isnan(c) or math.isinf(c): raise NotImplementedError('remainder by a variable')
            C = rv(abs(Q(c)))
            if abs(c) == 1.0:
                k, r = self.trunc(y.args[0], a); self.remk[y.id] = k
                v = self.fresh('r', 'rem'); self.add(v == a.v - r)
                return FV(zor(nan, self.isinf(a)), v, False, a.g)
            k = self.fresh('i', 'fk'); v = self.fresh('r', 'rem'); self.remk[y.id] = k; self.ints.append(k)
            self.add(v == a.v - C * z3.ToReal(k))
            self.add(z3.If(a.v >= 0, z3.And(v >= 0, v < C, k >= 0), z3.And(v <= 0, v > -C, k <= 0)))
            g = None
            if a.g is not None: g = max(a.g, fgrid(c))
            bad = self.isinf(a)
            return FV(zor(nan, bad), v, False, g)
        if o == 'fsqrt':
            s = self.fresh('r', 'sqrt')
            self.add(z3.Implies(a.v >= 0, z3.And(s >= 0, s * s == a.v)))
            r = self.rn(s, False, False)
            v = r.v
            if a.inf: 
                v = self.fresh('r', 'sq'); self.add(v == zite(self.isinf(a), a.v, r.v))
            return FV(zor(nan, a.v < 0), v, a.inf)
        if o in ('fsin', 'fcos'):
            v = self.fresh('r', o); self.add(v >= -1, v <= 1)
            return FV(zor(nan, self.isinf(a)), v, False)
        if o in ('facos', 'fasin', 'fatan', 'fatan2'):
            v = self.fresh('r', o)
            PI = rv(Q(math.pi)); H = rv(Q(math.pi / 2))
            if o == 'facos': self.add(v >= 0, v <= PI); bad = z3.Or(a.v < -1, a.v > 1)
            elif o == 'fasin': self.add(v >= -H, v <= H); bad = z3.Or(a.v < -1, a.v > 1)
            elif o == 'fatan': self.add(v >= -H, v <= H, z3.Implies(a.v >= 0, v >= 0), z3.Implies(a.v <= 0, v <= 0)); bad = False
            else: self.add(v >= -PI, v <= PI); bad = False
            return FV(zor(nan, bad), v, False)
        raise NotImplementedError('z3 encoding of ' + o)

    # static bounds: can this operation overflow?
    def bounded(self, y):
        iv = self.iv(y)
        return iv is not None

    def iv(self, y):
        """(lo, hi) as Fractions of the finite value when provably finite for
        the declared domain, else None (overflow or infinite operands possible)"""
        if not is_t(y):
            return (Q(y), Q(y)) if math.isfinite(y) else None
        k = ('iv', y.id)
        if k in self.m: return self.m[k]
        for s in subterms([y]):
            if s.sort != 'f': continue
            ks = ('iv', s.id)
            if ks not in self.m: self.m[ks] = self.iv1(s)
        return self.m[k]

    def iv1(self, y):
        o = y.op; a = y.args
        def g(x): return ((Q(x), Q(x)) if math.isfinite(x) else None) if not is_t(x) else self.m.get(('iv', x.id))
        if o == 'var':
            d = self.domain.get(a[0])
            if d is None: return None
            return (Q(d[0]) if d[0] is not None else -MAXF, Q(d[1]) if d[1] is not None else MAXF)
        if o == 'i2f': return (Q(a[0].lo), Q(a[0].hi)) if is_t(a[0]) else None
        if o in ('fsin', 'fcos'): return (Q(-1), Q(1))
        if o in ('fatan', 'fatan2', 'facos', 'fasin'): return (Q(-4), Q(4))
        if o == 'ite':
            p, q = g(a[1]), g(a[2])
            return None if p is None or q is None else (min(p[0], q[0]), max(p[1], q[1]))
        if o == 'frem':
            if is_t(a[1]): return None
            return (-abs(Q(a[1])), abs(Q(a[1])))
        ps = [g(x) for x in a if not isinstance(x, (bool, int))]
        if any(p is None for p in ps): return None
        if o == 'fneg': r = (-ps[0][1], -ps[0][0])
        elif o == 'fabs':
            m = max(abs(ps[0][0]), abs(ps[0][1])); r = (Q(0), m)
        elif o == 'ffloor': r = (Q(math.floor(ps[0][0])), Q(math.floor(ps[0][1])))
        elif o == 'ftrunc': r = (Q(math.trunc(ps[0][0])), Q(math.trunc(ps[0][1])))
        elif o in ('fceil', 'fround', 'frint'): r = (ps[0][0] - 1, ps[0][1] + 1)
        elif o == 'fadd': r = (ps[0][0] + ps[1][0], ps[0][1] + ps[1][1])
        elif o == 'fsub': r = (ps[0][0] - ps[1][1], ps[0][1] - ps[1][0])
        elif o == 'fmul':
            c = [x * z for x in ps[0] for z in ps[1]]; r = (min(c), max(c))
        elif o == 'fdiv':
            if ps[1][0] <= 0 <= ps[1][1]: return None
            c = [x / z for x in ps[0] for z in ps[1]]; r = (min(c), max(c))
        elif o == 'fcopysign': r = (-ps[0][1], ps[0][1])
        elif o in ('fmin', 'fmax'): r = (min(ps[0][0], ps[1][0]), max(ps[0][1], ps[1][1]))
        elif o == 'fsqrt': r = (Q(0), max(Q(1), ps[0][1]))
        else: return None
        m = max(abs(r[0]), abs(r[1])) * (1 + 2 * U) + ETA * 4
        if m >= OVF: return None
        # outward: keep a dyadic-ish cheap enclosure
        def up(q): 
            if q == 0: return q
            n, d = q.numerator, q.denominator
            if n.bit_length() + d.bit_length() < 400: return q * (1 + 2*U) if q > 0 else q * (1 - 2*U)
            s = d.bit_length() - n.bit_length() + 70
            return Q(-((-n << s) // d) if s >= 0 else -((-n) // (d << -s)), 1) / (Q(2)**s) * ((1 + 2*U) if q > 0 else (1 - 2*U))
        return (-up(-r[0]), up(r[1]))

    # ---------------------------------------------------------- solving
    def check(self, hyps, goal, timeout=60000, extra=()):
        """-> ('unsat'|'sat'|'unknown', model or None, seconds)"""
        s = z3.Solver(); s.set('timeout', timeout)
        g = goal
        hs = [zb(h) for h in hyps]
        for d in self.defs: s.add(d)
        for h in hs: s.add(h)
        for x in extra: s.add(x)
        s.add(z3.Not(zb(g)))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        return str(r), (s.model() if r == z3.sat else None), dt
