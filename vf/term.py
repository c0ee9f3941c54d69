"""Hash-consed terms over mathematical integers, booleans and IEEE doubles.

Constants are plain Python values (bool / int / float); everything else is a
Term.  Integer terms denote mathematical integers (wrapping is an explicit
operation) and carry an interval.  Float terms denote IEEE binary64 values;
the arithmetic operators denote the correctly rounded IEEE operations.
"""
import math, struct

class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'lo', 'hi')
    def __repr__(self): return show(self, 3)

_tab = {}
_n = [0]

def bits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def unbits(b): return struct.unpack('<d', struct.pack('<Q', b))[0]

def key(a):
    if a.__class__ is Term: return a.id
    if a.__class__ is float: return ('f', bits(a))
    if a.__class__ is bool: return ('b', a)
    if a.__class__ is int: return ('i', a)
    return a   # str / tuple payloads

def reset():
    _tab.clear()

def mk(op, args, sort, lo=None, hi=None):
    k = (op,) + tuple([key(a) for a in args])
    t = _tab.get(k)
    if t is not None: return t
    t = Term(); t.op = op; t.args = tuple(args); t.sort = sort; t.lo = lo; t.hi = hi
    _n[0] += 1; t.id = _n[0]
    _tab[k] = t
    return t

def is_t(x): return x.__class__ is Term

def sort_of(x):
    if x.__class__ is Term: return x.sort
    if x.__class__ is bool: return 'b'
    if x.__class__ is int: return 'i'
    if x.__class__ is float: return 'f'
    return '?'

def show(t, d=6):
    if not is_t(t): return repr(t)
    if not t.args: return t.op
    if t.op == 'var': return str(t.args[0])
    if d == 0: return '..'
    return t.op + '(' + ','.join(show(a, d - 1) for a in t.args) + ')'

def var(name, sort, lo=None, hi=None): return mk('var', (name, sort, lo, hi), sort, lo, hi)

# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True: return False
    if a is False: return True
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'b')

def b_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a is b: return a
    if b_not(a) is b: return False
    if key(a) > key(b): a, b = b, a
    return mk('and', (a, b), 'b')

def b_or(a, b): return b_not(b_and(b_not(a), b_not(b)))
def b_imp(a, b): return b_or(b_not(a), b)
def b_xor(a, b): return ite(a, b_not(b), b)

def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a is True and b is False: return c
    if a is False and b is True: return b_not(c)
    s = sort_of(a)
    assert s == sort_of(b), ('ite sort', a, b)
    if s == 'b':
        if a is True: return b_or(c, b)
        if a is False: return b_and(b_not(c), b)
        if b is True: return b_or(b_not(c), a)
        if b is False: return b_and(c, a)
    lo = hi = None
    if s == 'i':
        lo = min(ilo(a), ilo(b)); hi = max(ihi(a), ihi(b))
    # collapse nested ite on the same condition
    if is_t(a) and a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if is_t(b) and b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if same(a, b): return a
    return mk('ite', (c, a, b), s, lo, hi)

def same(a, b):
    if is_t(a) or is_t(b): return a is b
    if a.__class__ is not b.__class__: return False
    if a.__class__ is float: return bits(a) == bits(b)
    return a == b

# ---------------------------------------------------------------- integers
INF = float('inf')
def ilo(a): return a.lo if is_t(a) else a
def ihi(a): return a.hi if is_t(a) else a

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def trem(a, b): return a - b * tdiv(a, b)

_cl = {}
def const_leaves(a):
    """True when a is an ite tree with constant leaves only."""
    if not is_t(a): return True
    if a.op != 'ite': return False
    r = _cl.get(a.id)
    if r is None: r = _cl[a.id] = const_leaves(a.args[1]) and const_leaves(a.args[2])
    return r

def map_ite(a, f):
    """Apply f to the constant leaves of an ite tree."""
    if not (is_t(a) and a.op == 'ite'): return f(a)
    memo = {}
    def go(x):
        if not (is_t(x) and x.op == 'ite'): return f(x)
        r = memo.get(x.id)
        if r is None: r = memo[x.id] = ite(x.args[0], go(x.args[1]), go(x.args[2]))
        return r
    return go(a)

def given(x, c, v):
    """the ite tree x when the condition c is known to be v"""
    memo = {}
    def go(x):
        if not (is_t(x) and x.op == 'ite'): return x
        r = memo.get(x.id)
        if r is None: r = memo[x.id] = go(x.args[1] if v else x.args[2]) if x.args[0] is c else ite(x.args[0], go(x.args[1]), go(x.args[2]))
        return r
    return go(x)

def map2_ite(a, b, f, limit=500):
    """apply f to the constant leaves of two ite trees under the same decisions; None when that takes more than `limit` steps"""
    n = [0]; memo = {}
    def go(x, y):
        k = (x.id if is_t(x) else ('c', x), y.id if is_t(y) else ('c', y))
        if k in memo: return memo[k]
        n[0] += 1
        if n[0] > limit: raise OverflowError
        if not is_t(x) and not is_t(y): return f(x, y)
        c = (x if is_t(x) else y).args[0]
        r = memo[k] = ite(c, go(given(x, c, True), given(y, c, True)), go(given(x, c, False), given(y, c, False)))
        return r
    try: return go(a, b)
    except OverflowError: return None

def distrib(a, b):
    return (is_t(a) and a.op == 'ite' and const_leaves(a) and not is_t(b)) or (is_t(b) and b.op == 'ite' and const_leaves(b) and not is_t(a))

def i_add(a, b):
    if not is_t(a) and not is_t(b): return a + b
    if not is_t(a) and a == 0: return b
    if not is_t(b) and b == 0: return a
    if distrib(a, b): return map_ite(a, lambda x: map_ite(b, lambda y: x + y))
    if is_t(a) and is_t(b) and a.op == b.op == 'ite' and const_leaves(a) and const_leaves(b):
        r = map2_ite(a, b, lambda x, y: x + y)
        if r is not None: return r
    if not is_t(a): a, b = b, a
    if is_t(a) and a.op == 'iadd' and not is_t(a.args[1]) and not is_t(b): return i_add(a.args[0], a.args[1] + b)
    if is_t(b) and key(a) > key(b): a, b = b, a
    return mk('iadd', (a, b), 'i', ilo(a) + ilo(b), ihi(a) + ihi(b))

def i_neg(a): return i_mul(a, -1)
def i_sub(a, b): return i_add(a, i_mul(b, -1)) if is_t(b) else i_add(a, -b)

def i_mul(a, b):
    if not is_t(a) and not is_t(b): return a * b
    if not is_t(a): a, b = b, a
    if not is_t(b):
        if b == 0: return 0
        if b == 1: return a
        if distrib(a, b): return map_ite(a, lambda x: x * b)
        if a.op == 'imul' and not is_t(a.args[1]): return i_mul(a.args[0], a.args[1] * b)
        c = (a.lo * b, a.hi * b)
        return mk('imul', (a, b), 'i', min(c), max(c))
    if key(a) > key(b): a, b = b, a
    c = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    return mk('imul', (a, b), 'i', min(c), max(c))

def i_div(a, b):
    """truncating division; the caller guarantees b != 0"""
    if not is_t(a) and not is_t(b): return tdiv(a, b)
    if not is_t(b):
        if b == 1: return a
        if distrib(a, b): return map_ite(a, lambda x: tdiv(x, b))
        c = (tdiv(a.lo, b), tdiv(a.hi, b))
        return mk('idiv', (a, b), 'i', min(c), max(c))
    m = max(abs(ilo(a)), abs(ihi(a)))
    return mk('idiv', (a, b), 'i', -m, m)

def i_rem(a, b):
    if not is_t(a) and not is_t(b): return trem(a, b)
    if not is_t(b):
        if distrib(a, b): return map_ite(a, lambda x: trem(x, b))
        m = abs(b) - 1
        if ilo(a) >= 0 and ihi(a) <= m: return a
        return mk('irem', (a, b), 'i', 0 if a.lo >= 0 else -m, 0 if a.hi <= 0 else m)
    m = max(abs(ilo(b)), abs(ihi(b)))
    return mk('irem', (a, b), 'i', -m, m)

def rng(nbits, signed):
    return (-(1 << (nbits - 1)), (1 << (nbits - 1)) - 1) if signed else (0, (1 << nbits) - 1)

def i_wrap(a, nbits, signed):
    lo, hi = rng(nbits, signed)
    if not is_t(a):
        a &= (1 << nbits) - 1
        return a - (1 << nbits) if signed and a > hi else a
    if lo <= a.lo and a.hi <= hi: return a
    if a.op == 'ite' and const_leaves(a): return map_ite(a, lambda x: i_wrap(x, nbits, signed))
    return mk('wrap', (a, nbits, signed), 'i', lo, hi)

def i_cmp(op, a, b):
    """op in lt, le, eq"""
    if not is_t(a) and not is_t(b): return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
    if op == 'lt':
        if ihi(a) < ilo(b): return True
        if ilo(a) >= ihi(b): return False
    elif op == 'le':
        if ihi(a) <= ilo(b): return True
        if ilo(a) > ihi(b): return False
    else:
        if ihi(a) < ilo(b) or ihi(b) < ilo(a): return False
        if a is b: return True
        if is_t(a) and is_t(b) and a.id > b.id: a, b = b, a
        if not is_t(a): a, b = b, a
    if is_t(a) and a.op == 'ite' and const_leaves(a) and not is_t(b): return map_ite(a, lambda x: i_cmp(op, x, b))
    if is_t(b) and b.op == 'ite' and const_leaves(b) and not is_t(a): return map_ite(b, lambda x: i_cmp(op, a, x))
    if is_t(a) and is_t(b) and a.op == b.op == 'ite' and const_leaves(a) and const_leaves(b):
        r = map2_ite(a, b, lambda x, y: i_cmp(op, x, y))
        if r is not None: return r
    if op == 'lt' : return b_not(i_cmp('le', b, a))
    return mk('i' + op, (a, b), 'b')

def i_bit(op, a, b, nbits, signed):
    if not is_t(a) and not is_t(b):
        r = {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        return i_wrap(r, nbits, signed)
    if distrib(a, b): return map_ite(a, lambda x: map_ite(b, lambda y: i_bit(op, x, y, nbits, signed)))
    if op == 'and' and not is_t(b) and b >= 0 and (b & (b + 1)) == 0 and ilo(a) >= 0: return i_rem(a, b + 1)
    if op == 'and' and not is_t(a): return i_bit(op, b, a, nbits, signed)
    # x & (2^k - 1) is x modulo 2^k
    if op == 'and' and not is_t(b) and b > 0 and (b & (b + 1)) == 0: return i_wrap(a, b.bit_length(), False)
    lo, hi = rng(nbits, signed)
    return mk('ibit', (op, a, b, nbits, signed), 'i', lo, hi)

# ---------------------------------------------------------------- floats
CONCRETE = [False]   # fold libm functions on constants (engine self-check only)

def c_fmod(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0: return math.nan
    return math.fmod(a, b)
def c_div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a): return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b
def c_round(x):
    if math.isnan(x) or math.isinf(x) or abs(x) >= 2.0**52: return x
    t = float(math.trunc(x))
    if abs(x - t) >= 0.5: t += math.copysign(1.0, x)
    return math.copysign(t, x)
def c_int(f):
    def g(x):
        if math.isnan(x) or math.isinf(x) or abs(x) >= 2.0**52: return x
        return math.copysign(float(f(x)), x)
    return g
c_trunc, c_floor, c_ceil = c_int(math.trunc), c_int(math.floor), c_int(math.ceil)
def c_sqrt(x): return math.sqrt(x) if x >= 0 else (x if x == 0 else math.nan)
def c_libm(name):
    f = getattr(math, name)
    def g(*a):
        try: return f(*a)
        except ValueError: return math.nan
        except OverflowError: return math.inf
    return g

FCOMM = {'fadd', 'fmul'}
FOLD = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': c_div, 'frem': c_fmod,
        'fneg': lambda a: -a, 'fabs': abs, 'fsqrt': c_sqrt, 'ftrunc': c_trunc, 'ffloor': c_floor, 'fceil': c_ceil, 'fround': c_round}
LIBM = {'fsin': 'sin', 'fcos': 'cos', 'ftan': 'tan', 'fasin': 'asin', 'facos': 'acos', 'fatan': 'atan', 'fatan2': 'atan2', 'fhypot': 'hypot'}

def f_op(op, *args):
    if op == 'fneg':
        a = args[0]
        if is_t(a):
            if a.op == 'fneg': return a.args[0]
            return mk('fneg', args, 'f')
        return -a
    conc = not any(map(is_t, args))
    if conc:
        f = FOLD.get(op)
        if f: return f(*args)
        if CONCRETE[0] and op in LIBM: return c_libm(LIBM[op])(*args)
        if op == 'ffma': return c_fma(*args)
        if op in ('fmin', 'fmax'):
            a, b = args
            if math.isnan(a): return b
            if math.isnan(b): return a
            return min(a, b) if op == 'fmin' else max(a, b)
    if op in ('fmin', 'fmax') and not conc:      # the other operand when one is NaN (ties: equal values)
        a, b = args
        if is_t(b) and not is_t(a): a, b = b, a
        c = f_cmp('flt', a, b) if op == 'fmin' else f_cmp('flt', b, a)
        return ite(c, a, b if not is_t(b) and not math.isnan(b) else ite(f_isnan(b), a, b))
    if op == 'fcopysign':
        a, b = args
        if conc: return math.copysign(a, b)
        if not is_t(b): return f_op('fabs', a) if math.copysign(1.0, b) > 0 else f_op('fneg', f_op('fabs', a))
        return mk('fcopysign', (f_op('fabs', a), b), 'f')
    if op == 'fabs':
        a = args[0]
        if is_t(a) and a.op in ('fneg',): return f_op('fabs', a.args[0])
        if is_t(a) and a.op in ('fabs', 'fsqrt'): return a
    if op in FCOMM and not (is_t(args[0]) and is_t(args[1]) and args[0].id <= args[1].id):
        a, b = args
        if is_t(a) and not is_t(b) or (is_t(a) and is_t(b) and a.id > b.id): args = (b, a)
    # exact identities
    if op == 'fmul' and args[0].__class__ is float and args[0] == 1.0: return args[1]
    if op == 'fadd' and args[0].__class__ is float and args[0] == 0.0 and math.copysign(1.0, args[0]) < 0: return args[1]
    if op == 'fmul' and args[0].__class__ is float and args[0] == -1.0: return f_op('fneg', args[1])
    if op == 'fdiv' and args[1].__class__ is float and args[1] == 1.0: return args[0]
    return mk(op, args, 'f')

def c_fma(a, b, c):
    from fractions import Fraction
    if any(math.isnan(x) or math.isinf(x) for x in (a, b, c)): return a * b + c
    r = Fraction(a) * Fraction(b) + Fraction(c)
    if r == 0: return a * b + c
    try: return float(r)
    except OverflowError: return math.copysign(math.inf, r)

def f_cmp(op, a, b):
    """op in flt, fle, feq (false on NaN)"""
    if not is_t(a) and not is_t(b): return {'flt': a < b, 'fle': a <= b, 'feq': a == b}[op]
    if op == 'feq' and key_lt(b, a): a, b = b, a
    if is_t(a) and a.op == 'i2f' and not is_t(b) and b == int(b) and abs(b) <= 2**53 and max(abs(a.args[0].lo), abs(a.args[0].hi)) <= 2**53:
        return i_cmp(op[1:], a.args[0], int(b))
    if is_t(a) and a.op == 'ite' and const_leaves(a) and not is_t(b): return map_ite(a, lambda x: f_cmp(op, x, b))
    return mk(op, (a, b), 'b')

def f_total_cmp(a, b):
    import struct
    k = lambda x: (lambda i: i if i >= 0 else -(i & (2**63 - 1)) - 1)(struct.unpack('<q', struct.pack('<d', x))[0])
    return (k(a) > k(b)) - (k(a) < k(b))

def f_powi(x, n):
    """repeated squaring, as compiler-rt and LLVM's expansion do"""
    r = None; k = abs(n)
    while k:
        if k & 1: r = x if r is None else f_op('fmul', r, x)
        k >>= 1
        if k: x = f_op('fmul', x, x)
    if r is None: r = 1.0
    return f_op('fdiv', 1.0, r) if n < 0 else r

def key_lt(a, b):
    return (is_t(a), str(key(a))) < (is_t(b), str(key(b)))

def i2f(a, ibits=None):
    if not is_t(a): return float(a)
    if a.op == 'ite' and const_leaves(a): return map_ite(a, float)
    return mk('i2f', (a,), 'f')

def f2i(a, nbits, signed):
    lo, hi = rng(nbits, signed)
    if not is_t(a):
        if math.isnan(a): return 0
        if math.isinf(a): return hi if a > 0 else lo
        return max(lo, min(hi, int(a)))
    return mk('f2i', (a, nbits, signed), 'i', lo, hi)

def uf(name, args, sort, lo=None, hi=None):
    """Application of a contracted (opaque) function: output slot `name`."""
    return mk('uf', (name,) + tuple(args), sort, lo, hi)

def subterms(roots):
    seen = set(); out = []; st = [r for r in roots if is_t(r)]
    while st:
        t = st[-1]
        if t.id in seen: st.pop(); continue
        todo = [a for a in t.args if is_t(a) and a.id not in seen]
        if todo: st.extend(todo); continue
        seen.add(t.id); out.append(t); st.pop()
    return out   # topological order, children first

def subst(roots, m):
    """Substitute terms (map id -> value) and rebuild with folding."""
    memo = dict(m)
    def g(a): return memo[a.id] if is_t(a) else a
    for t in subterms(roots):
        if t.id in memo: continue
        if not any(is_t(a) and memo[a.id] is not a for a in t.args) and not (CONCRETE[0] and t.op != 'var' and not any(map(is_t, t.args))):
            memo[t.id] = t; continue
        memo[t.id] = rebuild(t, [g(a) for a in t.args])
    return [g(r) for r in roots]

def rebuild(t, a):
    o = t.op
    if o == 'not': return b_not(a[0])
    if o == 'and': return b_and(a[0], a[1])
    if o == 'ite': return ite(*a)
    if o == 'iadd': return i_add(*a)
    if o == 'imul': return i_mul(*a)
    if o == 'idiv': return i_div(*a)
    if o == 'irem': return i_rem(*a)
    if o == 'wrap': return i_wrap(*a)
    if o in ('ile', 'ieq', 'ilt'): return i_cmp(o[1:], *a)
    if o == 'ibit': return i_bit(*a)
    if o in ('flt', 'fle', 'feq'): return f_cmp(o, *a)
    if o == 'i2f': return i2f(a[0])
    if o == 'f2i': return f2i(*a)
    if o == 'uf' and a[0] == 'total_cmp' and not is_t(a[1]) and not is_t(a[2]): return f_total_cmp(a[1], a[2])
    if o == 'uf': return mk('uf', tuple(a), t.sort, t.lo, t.hi)
    if o == 'fisnan': return f_isnan(a[0])
    if o == 'fbits': return f_bits(a[0])
    if t.sort == 'f' and o != 'var': return f_op(o, *a)
    raise NotImplementedError('rebuild ' + o)

def f_isnan(a):
    if not is_t(a): return math.isnan(a)
    return mk('fisnan', (a,), 'b')

def f_bits(a):
    if not is_t(a): return bits(a)
    return mk('fbits', (a,), 'i', 0, 2**64 - 1)
