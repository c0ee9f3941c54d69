"""Integer back end: exhaustive over residues, symbolic over the period.

A term over one integer variable J, J = lo + P*k + r with 0 <= r < P and
0 <= k <= K, is evaluated to alpha*k + beta[r]: exact for every k at once.
Complete for calendar-like code (linear operations, division and remainder by
constants, comparisons that do not depend on k); anything else is refused."""
import numpy as np
from .term import *

class Refuse(Exception):
    split = None        # splitting the range here may help

class Residue:
    def __init__(self, J, lo, hi, P=146097):
        """hi - lo + 1 is a multiple of P, or less than P (then every value is listed)"""
        n = hi - lo + 1
        assert n % P == 0 or n < P
        self.K = (n - 1) // P; self.P = min(P, n); self.lo = lo; self.hi = hi; self.N = self.P
        self.m = {J.id: (P if self.K else 0, np.arange(self.P, dtype=np.int64) + lo)}
        self.keep = [J]
        self.n = 0
    def ext(self, v):
        a, b = v
        lo, hi = int(np.min(b)), int(np.max(b))
        e = a * self.K
        return lo + min(0, e), hi + max(0, e)
    def sign(self, p):
        """the dividend changes sign: is there one value of J from which on it is positive, or negative?"""
        e = Refuse('sign'); a, b = p
        if a:
            if a < 0: a, b = -a, -b
            b = np.broadcast_to(b, (self.P,))
            J = self.lo + np.arange(self.P) + self.P * (-(b // a))      # per residue, the first J with a non-negative dividend
            s = int(J.min())
            if int(J.max()) - s < self.P and self.lo < s <= self.hi: e.split = s
        return e
    def t(self, x):
        if not is_t(x):
            return x if x.__class__ is bool else (0, np.int64(x))
        for y in subterms([x]):
            if y.id not in self.m: self.m[y.id] = self.enc(y); self.keep.append(y); self.n += 1
        return self.m[x.id]
    def chk(self, v):
        l, h = self.ext(v)
        if max(abs(l), abs(h)) > 2**62: raise Refuse('magnitude')
        return v
    def enc(self, y):
        o = y.op; a = y.args
        g = self.t
        if o == 'iadd':
            p, q = g(a[0]), g(a[1]); return self.chk((p[0] + q[0], p[1] + q[1]))
        if o == 'imul':
            p, q = g(a[0]), g(a[1])
            if p[0] and q[0] or (p[0] and np.ndim(q[1])) or (q[0] and np.ndim(p[1])): raise Refuse('nonlinear')
            l, h = self.ext(p); l2, h2 = self.ext(q)
            if max(abs(l), abs(h)) * max(abs(l2), abs(h2)) > 2**62: raise Refuse('magnitude')
            if q[0]: p, q = q, p
            return (p[0] * int(q[1]) if p[0] else 0, p[1] * q[1])
        if o in ('idiv', 'irem'):
            if is_t(a[1]): raise Refuse('division by a variable')
            c = a[1]; p = g(a[0])
            s = 1 if c > 0 else -1; C = abs(c)
            l, h = self.ext(p)
            if o == 'idiv':
                if p[0] % C: raise Refuse('period')
                if l >= 0: return (s * (p[0] // C), s * (p[1] // C))
                if h <= 0: return (s * (p[0] // C), -s * ((-p[1]) // C))
                if p[0] == 0: return (0, s * np.where(p[1] >= 0, p[1] // C, -((-p[1]) // C)))
                raise self.sign(p)
            if p[0] % C: raise Refuse('period')
            if l >= 0: return (0, p[1] % C)
            if h <= 0: return (0, -((-p[1]) % C))
            if p[0] == 0: return (0, np.where(p[1] >= 0, p[1] % C, -((-p[1]) % C)))
            raise self.sign(p)
        if o == 'wrap':
            p = g(a[0]); lo, hi = rng(a[1], a[2]); l, h = self.ext(p)
            if l < lo or h > hi: raise Refuse('wraps')
            return p
        if o in ('ilt', 'ile', 'ieq'):
            p, q = g(a[0]), g(a[1])
            if p[0] == q[0]:
                return {'ilt': np.less, 'ile': np.less_equal, 'ieq': np.equal}[o](p[1], q[1])
            l, h = self.ext((p[0] - q[0], p[1] - q[1]))
            if o == 'ilt':
                if h < 0: return True
                if l >= 0: return False
            elif o == 'ile':
                if h <= 0: return True
                if l > 0: return False
            elif l > 0 or h < 0: return False
            raise Refuse('comparison depends on the period')
        if o == 'not': return np.logical_not(g(a[0]))
        if o == 'and': return np.logical_and(g(a[0]), g(a[1]))
        if o == 'ite':
            c, p, q = g(a[0]), g(a[1]), g(a[2])
            if y.sort == 'b': return np.where(c, p, q)
            if p[0] != q[0]:
                if np.all(c): return p
                if not np.any(c): return q
                raise Refuse('branches disagree on the period')
            return (p[0], np.where(c, p[1], q[1]))
        raise Refuse('operator ' + o)
    def valid(self, x):
        """is the boolean term true for every J in [lo, hi]?"""
        return bool(np.all(self.t(x)))
    def failing(self, x):
        """some J with x false"""
        v = np.broadcast_to(self.t(x), (self.P,))
        i = np.flatnonzero(~v)
        return None if len(i) == 0 else self.lo + int(i[0])
    def full(self, v):
        return v[0], np.broadcast_to(v[1], (self.P,))

def ranges(lo, hi, P=146097):
    """[lo, hi] cut for Residue: whole periods, and what is left"""
    n = (hi - lo + 1) // P * P
    return [(a, b) for a, b in ((lo, lo + n - 1), (lo + n, hi)) if a <= b]
