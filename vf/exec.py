"""Symbolic executor over the MIR of the real code.

Inlines calls, unrolls loops whose trip count folds to a constant, forks at
symbolic branches and merges the two states at the immediate post-dominator
(if-then-else terms).  Every assertion and every panic is recorded as a proof
obligation; nothing is assumed away."""
import re, struct, sys
sys.setrecursionlimit(20000)
from .term import *

class Unsupported(Exception): pass

class Ptr:
    __slots__ = ('a', 'o')
    def __init__(self, a, o): self.a = a; self.o = o
    def __repr__(self): return 'Ptr(%r,%r)' % (self.a, self.o)

class Fn:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

class Alloc:
    __slots__ = ('slots', 'runs', 'size', 'ty', 'tok')
    def __init__(self, size, ty, tok): self.slots = {}; self.runs = []; self.size = size; self.ty = ty; self.tok = tok
    def clone(self, tok):
        a = Alloc(self.size, self.ty, tok); a.slots = dict(self.slots); a.runs = list(self.runs); return a

class Obl:
    __slots__ = ('kind', 'where', 'pc', 'cond')
    def __init__(self, kind, where, pc, cond): self.kind = kind; self.where = where; self.pc = pc; self.cond = cond

PANIC = ('core::panicking::', 'std::rt::panic', 'core::rt::', 'std::panicking::', 'core::result::unwrap_failed', 'std::result::unwrap_failed',
         'core::option::expect_failed', 'core::option::unwrap_failed', 'std::option::expect_failed', 'std::option::unwrap_failed',
         'core::slice::index::slice_', 'core::panic')
CMATH = {'sin': 'fsin', 'cos': 'fcos', 'tan': 'ftan', 'acos': 'facos', 'asin': 'fasin', 'atan': 'fatan', 'atan2': 'fatan2', 'hypot': 'fhypot'}
FINTR = {'sqrt': 'fsqrt', 'sin': 'fsin', 'cos': 'fcos', 'fabs': 'fabs', 'floor': 'ffloor', 'ceil': 'fceil', 'round': 'fround', 'trunc': 'ftrunc',
         'rint': 'frint', 'round_ties_even': 'frint', 'fma': 'ffma', 'fmuladd': 'ffma', 'minnum': 'fmin', 'maxnum': 'fmax',
         'minimum_number_nsz': 'fmin', 'maximum_number_nsz': 'fmax', 'copysign': 'fcopysign'}
MASK64 = (1 << 64) - 1
FUEL = 6_000_000
# dropping these frees memory and does nothing else that could be observed
HEAP = r'(?:std::string::String|std::ffi::OsString|std::vec::Vec<(?:u8|i32|f64|std::string::String|std::ffi::OsString|\[f64; \d+\])>|pico_args::Arguments|pico_args::Error|anyhow::Error|std::boxed::Box<\[?(?:f64|i32|u8)(?:; \d+)?\]?>)'
OWNS_HEAP = re.compile(r'%s$|std::option::Option<%s>$|std::result::Result<[\w:(), ]+, %s>$|std::result::Result<%s, %s>$|std::ops::ControlFlow<std::result::Result<std::convert::Infallible, %s>(?:, [\w:]+)?>$' % ((HEAP,) * 6))

class Exec:
    def __init__(self, prog):
        self.P = prog
        self.mem = {}
        self.tok = object()
        self.next = 0
        self.pc = True
        self.known = {}          # condition id -> bool on this path
        self.obls = []           # proof obligations met on the way
        self.contracts = {}      # function name -> handler
        self.called = {}         # function name -> times inlined
        self.fuel = FUEL
        self.assumed = []        # facts established (asserted) so far
        self.depth = 0
        self.cuts = {}           # loop heads cut by an invariant: (function, block) -> handler
        self.fmt = None          # vf/fmt.py: traced formatting
        self.calls = []
        self.lent = []           # what the references passed in point to
        self.frame = []          # types of those that the call changed

    # ------------------------------------------------------------ memory
    def new(self, size, ty=None):
        i = self.next; self.next += 1
        self.mem[i] = Alloc(size, ty, self.tok)
        return i

    def get(self, a):
        m = self.mem.get(a)
        if m is None:
            if isinstance(a, tuple) and a[0] == 'c':
                cb = self.P.alloc(a[1])
                if isinstance(cb, tuple): raise Unsupported('read of a %s' % cb[1])
                m = Alloc(len(cb.b), None, None)
                m.runs = [(0, len(cb.b), cb, 0)]
                self.mem[a] = m
            else: raise Unsupported('dangling allocation %r' % (a,))
        return m

    def wr(self, a):
        m = self.get(a)
        if m.tok is not self.tok:
            if m.tok is None: raise Unsupported('write to constant')
            m = m.clone(self.tok); self.mem[a] = m
        return m

    def decode(self, cb, off, size, kind):
        """kind: 'int','sint','float','ptr','bool'"""
        if cb.un and off in cb.un: return None
        if size == 8 and off in cb.p:
            t = cb.p[off]; c = self.P.alloc(t)
            if isinstance(c, tuple):
                if c[0] == 'FN': return Fn(c[1])
                return Ptr(('c', t), 0)
            o = int.from_bytes(cb.b[off:off+8], 'little')
            return Ptr(('c', t), o)
        bs = cb.b[off:off+size]
        if kind == 'float': return struct.unpack('<d', bs)[0] if size == 8 else struct.unpack('<f', bs)[0]
        if kind == 'bool':
            if bs[0] > 1: raise Unsupported('niche read as a boolean')
            return bs[0] != 0
        return int.from_bytes(bs, 'little', signed=(kind == 'sint'))

    def slot(self, m, off, size, kind):
        s = m.slots.get(off)
        if s is not None:
            if s[0] == size: return self.conv(s[1], size, kind)
            raise Unsupported('partial read')
        for (o, n, cb, co) in m.runs:
            if o <= off and off + size <= o + n: return self.decode(cb, co + off - o, size, kind)
        return None

    def conv(self, v, size, kind):
        k = v.__class__
        if k is Term: s = v.sort
        elif k is bool: s = 'b'
        elif k is int: s = 'i'
        elif k is float: s = 'f'
        else: return v     # pointers
        if kind == 'float':
            if s == 'f': return v
            if s == 'i':
                if not is_t(v): return unbits(v & MASK64)
                if v.op == 'fbits': return v.args[0]
                if v.op == 'wrap' and is_t(v.args[0]) and v.args[0].op == 'fbits': return v.args[0].args[0]
                return mk('ffrombits', (v,), 'f')
        elif kind in ('int', 'sint', 'ptr'):
            if s == 'i':
                if kind == 'ptr': return v
                return i_wrap(v, size * 8, kind == 'sint')
            if s == 'f': return i_wrap(f_bits(v), 64, kind == 'sint')
            if s == 'b': return ite(v, 1, 0)
        elif kind == 'bool':
            if s == 'b': return v
            if s == 'i': return b_not(i_cmp('eq', v, 0))
        raise Unsupported('conversion to ' + kind)

    def kind(self, ty):
        if ty == 'ptr': return 'ptr', 8
        if ty == 'usize': return 'int', 8
        if isinstance(ty, tuple): return 'int', ty[1]
        T = self.P.types[ty]; k = T['k']
        if k == 'int': return ('sint' if T['signed'] else 'int'), T['size']
        if k == 'float':
            if T['size'] != 8: raise Unsupported('non-f64 float')
            return 'float', 8
        if k == 'bool': return 'bool', 1
        if k == 'char': return 'int', 4
        if k in ('ptr', 'ref', 'fnptr'): return 'ptr', 8
        if k == 'pat': return self.kind(T['elem'])
        if k == 'adt':
            f = self.P.flat(ty)
            if len(f) == 1 and f[0][0] == 0 and f[0][1] != ty: return self.kind(f[0][1])
        raise Unsupported('scalar kind of ' + T['name'])

    def read(self, a, off, ty):
        k, n = self.kind(ty)
        if is_t(off):
            if not const_leaves(off): raise Unsupported('symbolic offset')
            # a leaf whose bytes are uninitialised (the payload of another variant) is not read on that path
            leaves = set(); map_ite(off, lambda o: (leaves.add(o), o)[1])
            vals = {o: self.slot(self.get(a), o, n, k) for o in leaves}
            some = self.need(next((v for v in vals.values() if v is not None), None))
            return map_ite(off, lambda o: some if vals[o] is None else vals[o])
        m = self.mem.get(a)
        if m is None: m = self.get(a)
        s = m.slots.get(off)
        if s is not None and s[0] == n:
            v = s[1]; c = v.__class__
            if c is float and k == 'float': return v
            if c is tuple:
                v = self.resolve(v)
                if v.__class__ is tuple and k in ('float', 'bool'): raise Unsupported('a number merged with a pointer')
            return self.conv(v, n, k)
        return self.need(self.slot(m, off, n, k))

    def need(self, v):
        if v is None: raise Unsupported('read of uninitialised memory')
        return v

    def write(self, a, off, n, v):
        if is_t(off):
            if not const_leaves(off): raise Unsupported('symbolic offset')
            leaves = set(); map_ite(off, lambda o: (leaves.add(o), o)[1])
            k = {'f': 'float', 'b': 'bool', 'i': 'sint'}[sort_of(v)]
            for o in leaves:
                old = self.slot(self.get(a), o, n, k)
                self.write(a, o, n, v if old is None else ite(i_cmp('eq', off, o), v, old))
            return
        m = self.mem.get(a)
        if m is None or m.tok is not self.tok: m = self.wr(a)
        s = m.slots
        if off in s and s[off][0] == n: s[off] = (n, v); return
        self.clear(m, off, n)
        s[off] = (n, v)

    def clear(self, m, off, n):
        s = m.slots
        if s:
            if n <= 32:
                for o in range(max(0, off - 15), off + n):
                    x = s.get(o)
                    if x is not None and o + x[0] > off: del s[o]
            else:
                for o in [o for o, x in s.items() if o < off + n and o + x[0] > off]: del s[o]
        if m.runs:
            nr = []
            for r in m.runs:
                o, k, cb, co = r
                if o + k <= off or o >= off + n: nr.append(r); continue
                if o < off: nr.append((o, off - o, cb, co))
                if o + k > off + n: nr.append((off + n, o + k - off - n, cb, co + off + n - o))
            m.runs = nr

    def copy(self, da, do, sa, so, n, ty=None):
        if n == 0: return
        if is_t(do): raise Unsupported('aggregate write at symbolic offset')
        if is_t(so):
            if not const_leaves(so) or ty is None: raise Unsupported('aggregate read at symbolic offset')
            leaves = []; map_ite(so, lambda o: (leaves.append(o), o)[1])
            d = self.wr(da); self.clear(d, do, n)
            for o, lt in self.P.flat(ty):
                k, sz = self.kind(lt)
                vals = {}
                for L in set(leaves): vals[L] = self.slot(self.get(sa), L + o, sz, k)
                some = [v for v in vals.values() if v is not None]
                if not some: continue
                v = map_ite(so, lambda L: vals[L] if vals[L] is not None else some[0])
                d.slots[do + o] = (sz, v)
            return
        s = self.get(sa)
        if da == sa:
            if do == so: return
            s = s.clone(None)
        d = self.wr(da)
        if do == 0 and so == 0 and n == s.size == d.size:
            d.slots = {o: self.slim(x) for o, x in s.slots.items()}; d.runs = list(s.runs); return
        self.clear(d, do, n)
        sl = s.slots
        if len(sl) > 4 * n:
            for o in range(so, so + n):
                x = sl.get(o)
                if x is not None: d.slots[o - so + do] = self.slim(x)
        else:
            for o, x in sl.items():
                if so <= o < so + n:
                    if o + x[0] > so + n: raise Unsupported('partial copy')
                    d.slots[o - so + do] = self.slim(x)
                elif o < so < o + x[0]: raise Unsupported('partial copy')
        for (o, k, cb, co) in s.runs:
            lo = max(o, so); hi = min(o + k, so + n)
            if lo < hi: d.runs.append((lo - so + do, hi - lo, cb, co + lo - o))

    def slim(self, x):
        """a slot with a merged pointer resolved as far as the known conditions allow"""
        v = x[1]
        if v.__class__ is not tuple or not self.known: return x
        w = self.resolve(v)
        return x if w is v else (x[0], w)

    def resolve(self, v):
        if v.__class__ is tuple:
            k = self.simp(v[1])
            if k is True: return self.resolve(v[2])
            if k is False: return self.resolve(v[3])
            a, b = self.resolve(v[2]), self.resolve(v[3])
            return v if a is v[2] and b is v[3] else ('MIX', v[1], a, b)
        while is_t(v) and v.op == 'ite':
            k = self.known.get(v.args[0].id)
            if k is None: break
            v = v.args[1 if k else 2]
        return v

    def merge_alloc(self, c, x, y):
        if x is y: return x
        m = Alloc(x.size, x.ty, self.tok)
        if x.runs != y.runs:
            if x.ty is not None:
                x, y = self.materialise(x), self.materialise(y)
            else: raise Unsupported('merge of untyped constant runs')
        m.runs = list(x.runs)
        for o in set(x.slots) | set(y.slots):
            p = x.slots.get(o); q = y.slots.get(o)
            if p is q: m.slots[o] = p; continue
            n = (p or q)[0]
            kd = self.vkind((p or q)[1])
            if p is None:
                v = self.slot(x, o, n, kd)
                p = (n, v) if v is not None else None
            if q is None:
                v = self.slot(y, o, n, kd)
                q = (n, v) if v is not None else None
            if p is None: m.slots[o] = q; continue
            if q is None: m.slots[o] = p; continue
            if p[0] != q[0]: raise Unsupported('merge of different layouts')
            m.slots[o] = (n, self.merge_val(c, p[1], q[1]))
        return m

    def vkind(self, v):
        if isinstance(v, (Ptr, Fn)) or v.__class__ is tuple or hasattr(v, 'ev'): return 'ptr'
        return {'f': 'float', 'b': 'bool', 'i': 'sint'}[sort_of(v)]

    def merge_val(self, c, a, b):
        if a is b: return a
        if hasattr(a, 'ev') and hasattr(b, 'ev'):
            from .fmt import merge
            return merge(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.a == b.a:
            if same(a.o, b.o): return a
            return Ptr(a.a, ite(c, a.o, b.o))
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)): 
            return ('MIX', c, a, b)
        if a.__class__ is tuple or b.__class__ is tuple: return ('MIX', c, a, b)
        if sort_of(a) != sort_of(b):
            sa, sb = sort_of(a), sort_of(b)
            if sa == 'b': a = ite(a, 1, 0); sa = 'i'
            if sb == 'b': b = ite(b, 1, 0); sb = 'i'
            if sa != sb: return ('MIX', c, a, b)
        return ite(c, a, b)

    def materialise(self, x):
        if not x.runs: return x
        y = Alloc(x.size, x.ty, self.tok); y.slots = dict(x.slots)
        for o, lt in self.P.flat(x.ty):
            if o in y.slots: continue
            k, n = self.kind(lt)
            v = self.slot(x, o, n, k)
            if v is not None: y.slots[o] = (n, v)
        return y

    # ------------------------------------------------------------ places
    def loc(self, fr, place):
        """-> (alloc, offset, type, meta)"""
        l, proj = place
        a = fr.alloc(l); off = 0; ty = fr.tys[l]; meta = None; variant = None
        P = self.P
        for e in proj:
            k = e[0]
            if k == 'd':
                T = P.types[ty]
                if T['k'] not in ('ptr', 'ref'): raise Unsupported('deref of ' + T['name'])
                p = self.read(a, off, 'ptr')
                meta = self.read(a, off + 8, 'usize') if T['size'] == 16 else None
                p = unmix(p)
                if not isinstance(p, Ptr):
                    if P.size(T['elem']) == 0: p = Ptr(self.new(0), 0)
                    else: raise Unsupported('deref of non-pointer %r' % (p,))
                a = p.a; off = p.o; ty = T['elem']; variant = None
            elif k == 'f':
                T = P.types[ty]
                if T['k'] == 'adt':
                    v = T['variants'][variant if variant is not None else T.get('single', 0)]
                    off = i_add(off, v['offs'][e[1]])
                elif T['k'] in ('tuple', 'closure'): off = i_add(off, T['offs'][e[1]])
                elif T['k'] == 'pat': pass
                else: raise Unsupported('field of ' + T['name'])
                ty = e[2]; variant = None
            elif k == 'v': variant = e[1]
            elif k == 'i':
                ix = self.read(fr.alloc(e[1]), 0, 'usize')
                el = P.types[ty]['elem']
                if is_t(ix) and not const_leaves(ix):
                    n = P.types[ty]['len'] if P.types[ty]['k'] == 'array' else meta
                    if is_t(n) or n > 128: raise Unsupported('symbolic index')
                    # the bounds check is a separate obligation
                    t = n - 1
                    for q in range(n - 2, -1, -1): t = ite(i_cmp('eq', ix, q), q, t)
                    ix = t
                off = i_add(off, i_mul(ix, P.size(el))); ty = el; meta = None
            elif k == 'c':
                T = P.types[ty]; el = T['elem']
                n = T['len'] if T['k'] == 'array' else meta
                ix = e[1] if not e[3] else i_sub(n, e[1])
                off = i_add(off, i_mul(ix, P.size(el))); ty = el; meta = None
            elif k == 's':
                T = P.types[ty]; el = T['elem']
                n = T['len'] if T['k'] == 'array' else meta
                off = i_add(off, i_mul(e[1], P.size(el)))
                if T['k'] == 'slice': meta = i_sub(n, e[1] + e[2]) if e[3] else e[2] - e[1]
                else: raise Unsupported('array subslice')
            elif k == 'o': ty = e[1]
        return a, off, ty, meta

    def scalar(self, fr, op):
        k = op[0]
        if k == 'p':
            l, proj = op[1]
            if not proj: x = self.read(fr.alloc(l), 0, fr.tys[l])
            else:
                a, off, ty, _ = self.loc(fr, op[1])
                x = self.read(a, off, self.strip(ty))
            # a merged value whose branch is known here
            while is_t(x) and x.op == 'ite':
                k = self.known.get(x.args[0].id)
                if k is None: break
                x = x.args[1 if k else 2]
            return x
        if k == 'k':
            cb = self.cb(op)
            kd, n = self.kind(self.strip(op[1]))
            return self.need(self.decode(cb, 0, n, kd))
        if k == 'rc': return op[1] == 'OverflowChecks' or op[1] == 'UbChecks' and False
        raise Unsupported('operand ' + str(op)[:80])

    def strip(self, ty):
        """type of the single scalar inside a transparent wrapper"""
        if isinstance(ty, (str, tuple)) or self.P.is_scalar(ty): return ty
        f = self.P.flat(ty)
        if len(f) == 1 and f[0][0] == 0: return f[0][1]
        return ty

    def cb(self, op):
        from .mir import CB
        c = self.P._ckb.get(id(op))
        if c is None: c = self.P._ckb[id(op)] = CB(op[2])
        return c

    def optype(self, fr, op):
        if op[0] == 'p': return self.ptype(fr, op[1])
        if op[0] in ('k', 'z', 'bad'): return op[1]
        return None

    def ptype(self, fr, place):
        l, proj = place
        ty = fr.tys[l]
        for e in proj:
            if e[0] == 'f': ty = e[2]
            elif e[0] == 'd': ty = self.P.types[ty]['elem']
            elif e[0] in ('i', 'c'): ty = self.P.types[ty]['elem']
            elif e[0] == 'o': ty = e[1]
        return ty

    def assign_operand(self, fr, da, do, dty, op):
        """store the operand's value at (da, do)"""
        P = self.P
        n = P.size(dty)
        if n == 0: return
        k = op[0]
        if k == 'p':
            if P.is_scalar(dty) and not is_t(do):
                l, proj = op[1]
                if not proj: sa, so = fr.alloc(l), 0
                else: sa, so, _, _ = self.loc(fr, op[1])
                self.write(da, do, n, self.read(sa, so, dty)); return
            sa, so, sty, _ = self.loc(fr, op[1])
            if is_t(do) and P.is_scalar(dty): self.write(da, do, n, self.read(sa, so, dty)); return
            self.copy(da, do, sa, so, n, dty)
        elif k == 'k':
            cb = self.cb(op)
            if P.is_scalar(dty):
                kd, n = self.kind(dty)
                self.write(da, do, n, self.need(self.decode(cb, 0, n, kd)))
            else:
                d = self.wr(da); self.clear(d, do, n); d.runs.append((do, n, cb, 0))
        elif k == 'z': pass
        elif k == 'rc': self.write(da, do, 1, self.scalar(fr, op))
        else: raise Unsupported('operand ' + str(op)[:80])

    # ------------------------------------------------------------ rvalues
    def assign(self, fr, place, r, checked=False):
        P = self.P
        l, proj = place
        if proj: da, do, dty, _ = self.loc(fr, place)
        else: da, do, dty = fr.alloc(l), 0, fr.tys[l]
        k = r[0]
        if k == 'use': self.assign_operand(fr, da, do, dty, r[1]); return
        if k == 'ref':
            a, off, ty, meta = self.loc(fr, r[1])
            self.write(da, do, 8, Ptr(a, off))
            if P.types[dty].get('size') == 16: self.write(da, i_add(do, 8), 8, meta)
            return
        if k == 'bin':
            if P.size(dty) == 0: return
            v = self.binop(r[1], self.optype(fr, r[2]), self.scalar(fr, r[2]), self.scalar(fr, r[3]))
            self.write(da, do, P.size(dty), v); return
        if k == 'cbin':
            T = P.types[dty]; it = T['fields'][0]
            x = self.scalar(fr, r[2]); y = self.scalar(fr, r[3])
            v = {'Add': i_add, 'Sub': i_sub, 'Mul': i_mul}[r[1]](x, y)
            TT = P.types[it]; lo, hi = rng(TT['bits'], TT['signed'])
            ov = b_not(b_and(i_cmp('le', lo, v), i_cmp('le', v, hi)))
            if not checked or not is_t(v): v = i_wrap(v, TT['bits'], TT['signed'])
            self.write(da, do + T['offs'][0], P.size(it), v)
            self.write(da, do + T['offs'][1], 1, ov); return
        if k == 'un':
            if r[1] == 'PtrMetadata':
                a, off, ty, _ = self.loc(fr, r[2][1])
                if P.size(dty) == 0: return
                self.write(da, do, 8, self.read(a, off + 8, 'usize')); return
            x = self.scalar(fr, r[2]); s = sort_of(x)
            if r[1] == 'Neg':
                if s == 'f': v = f_op('fneg', x)
                else:
                    T = P.types[dty]; v = i_wrap(i_mul(x, -1), T['bits'], T['signed'])
            elif r[1] == 'Not':
                if s == 'b': v = b_not(x)
                else:
                    T = P.types[dty]; v = i_wrap(i_sub(-1, x), T['bits'], T['signed'])
            else: raise Unsupported('unary ' + r[1])
            self.write(da, do, P.size(dty), v); return
        if k == 'cast': self.cast(fr, da, do, dty, r[1], r[2], r[3]); return
        if k == 'agg': self.aggregate(fr, da, do, dty, r[1], r[2]); return
        if k == 'discr':
            a, off, ty, _ = self.loc(fr, r[1])
            self.write(da, do, P.size(dty), self.discr(a, off, ty, dty)); return
        if k == 'rep':
            T = P.types[dty]; el = T['elem']; n = P.size(el)
            if n == 0: return
            t = self.new(n, el)
            self.assign_operand(fr, t, 0, el, r[1])
            for i in range(r[2]): self.copy(da, do + i * n, t, 0, n, el)
            del self.mem[t]; return
        if k == 'len':
            a, off, ty, meta = self.loc(fr, r[1])
            T = P.types[ty]
            self.write(da, do, 8, T['len'] if T['k'] == 'array' else meta); return
        raise Unsupported('rvalue ' + str(r)[:80])

    def binop(self, op, ty, x, y):
        if x.__class__ in (Ptr, Fn) or y.__class__ in (Ptr, Fn): return self.ptrop(op, ty, x, y)
        s = sort_of(x)
        if s == 'f':
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): return f_op('f' + op.lower(), x, y)
            if op == 'Lt': return f_cmp('flt', x, y)
            if op == 'Le': return f_cmp('fle', x, y)
            if op == 'Gt': return f_cmp('flt', y, x)
            if op == 'Ge': return f_cmp('fle', y, x)
            if op == 'Eq': return f_cmp('feq', x, y)
            if op == 'Ne': return b_not(f_cmp('feq', x, y))
        elif s == 'b':
            if op == 'Eq': return b_not(b_xor(x, y))
            if op in ('Ne', 'BitXor'): return b_xor(x, y)
            if op == 'BitAnd': return b_and(x, y)
            if op == 'BitOr': return b_or(x, y)
            x = ite(x, 1, 0); y = ite(y, 1, 0)
            return self.binop(op, ty, x, y)
        else:
            if op == 'Eq': return i_cmp('eq', x, y)
            if op == 'Ne': return b_not(i_cmp('eq', x, y))
            if op == 'Lt': return i_cmp('lt', x, y)
            if op == 'Le': return i_cmp('le', x, y)
            if op == 'Gt': return i_cmp('lt', y, x)
            if op == 'Ge': return i_cmp('le', y, x)
            if op == 'Cmp': return ite(i_cmp('lt', x, y), -1, ite(i_cmp('eq', x, y), 0, 1))
            T = self.P.types[ty]; b, sg = (T['bits'], T['signed']) if T['k'] == 'int' else (32, False)
            if op in ('Add', 'AddUnchecked'): return i_wrap(i_add(x, y), b, sg)
            if op in ('Sub', 'SubUnchecked'): return i_wrap(i_sub(x, y), b, sg)
            if op in ('Mul', 'MulUnchecked'): return i_wrap(i_mul(x, y), b, sg)
            if op == 'Div': return i_wrap(i_div(x, y), b, sg)
            if op == 'Rem': return i_rem(x, y)
            if op == 'BitAnd': return i_bit('and', x, y, b, sg)
            if op == 'BitOr': return i_bit('or', x, y, b, sg)
            if op == 'BitXor': return i_bit('xor', x, y, b, sg)
            if op in ('Shl', 'ShlUnchecked') and not is_t(y): return i_wrap(i_mul(x, 1 << (y % b)), b, sg)
            if op in ('Shr', 'ShrUnchecked') and not is_t(y):
                y %= b
                if not is_t(x): return x >> y
                if ilo(x) >= 0: return i_div(x, 1 << y)
        raise Unsupported('binop %s on %s' % (op, s))

    def ptrop(self, op, ty, x, y):
        if op == 'Offset':
            el = self.P.types[ty]['elem']
            return Ptr(x.a, i_add(x.o, i_mul(y, self.P.size(el))))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.a == y.a:
                if op == 'Eq': return i_cmp('eq', x.o, y.o)
                if op == 'Ne': return b_not(i_cmp('eq', x.o, y.o))
                if op == 'Lt': return i_cmp('lt', x.o, y.o)
                if op == 'Le': return i_cmp('le', x.o, y.o)
                if op == 'Gt': return i_cmp('lt', y.o, x.o)
                if op == 'Ge': return i_cmp('le', y.o, x.o)
                if op in ('Sub', 'SubUnchecked'): return i_sub(x.o, y.o)
            elif op in ('Eq', 'Ne'): return op == 'Ne'
        if op in ('Eq', 'Ne') and (same_null(x) or same_null(y)): return op == 'Ne'
        if op == 'BitAnd' and isinstance(x, Ptr) and not is_t(y) and not is_t(x.o) and y < 16: return x.o & y  # alignment tests
        raise Unsupported('pointer op ' + op)

    def cast(self, fr, da, do, dty, kind, op, ty):
        P = self.P; T = P.types[dty]
        if kind in ('IntToInt', 'Transmute', 'PtrToPtr', 'FnPtrToPtr', 'PointerExposeAddress', 'PointerWithExposedProvenance'):
            if kind == 'IntToInt' or (kind == 'Transmute' and P.is_scalar(dty) and self.P.is_scalar(self.optype(fr, op))):
                x = self.scalar(fr, op)
                if kind == 'IntToInt':
                    if sort_of(x) == 'b': x = ite(x, 1, 0)
                    x = i_wrap(x, T['bits'] if T['k'] == 'int' else 32, T.get('signed', False))
                self.write(da, do, P.size(dty), x)
                if is_t(x) or not isinstance(x, (int, float, bool)): return
                return
            # same-size reinterpretation (thin or fat pointers, newtypes)
            n = P.size(dty); sn = P.size(self.optype(fr, op))
            if n == 0: return
            if op[0] == 'p':
                sa, so, sty, _ = self.loc(fr, op[1])
                if n == 8 and sn == 16: self.write(da, do, 8, self.read(sa, so, 'ptr')); return
                if n != sn: raise Unsupported('cast size')
                self.copy(da, do, sa, so, n, sty); return
            if n != sn: raise Unsupported('cast size')
            d = self.wr(da); self.clear(d, do, n); d.runs.append((do, n, self.cb(op), 0)); return
        if kind == 'IntToFloat':
            if T['size'] != 8: raise Unsupported('f32')
            x = self.scalar(fr, op)
            self.write(da, do, 8, i2f(x)); return
        if kind == 'FloatToInt':
            x = self.scalar(fr, op)
            self.write(da, do, P.size(dty), f2i(x, T['bits'], T['signed'])); return
        if kind == 'FloatToFloat':
            st = P.types[self.optype(fr, op)]
            if T['size'] == 8 and st['size'] == 8:
                self.write(da, do, 8, self.scalar(fr, op)); return
            raise Unsupported('f32')
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            self.write(da, do, 8, Fn(P.types[self.optype(fr, op)]['inst'])); return
        if 'Unsize' in kind:
            sty = self.optype(fr, op); S = P.types[sty]
            x = self.scalar(fr, op)
            el = P.types[S['elem']]; de = P.types[T['elem']]
            self.write(da, do, 8, x)
            while el['k'] == 'adt' and de['k'] == 'adt' and len(el['variants']) == 1 and el['variants'][0]['fields']:
                # struct with an unsized tail
                el, de = P.types[el['variants'][0]['fields'][-1]], P.types[de['variants'][0]['fields'][-1]]
            if el['k'] == 'array' and de['k'] == 'slice': self.write(da, do + 8, 8, el['len'])
            elif de['k'] == 'dyn': self.write(da, do + 8, 8, 0)
            else: raise Unsupported('unsize')
            return
        if 'MutToConst' in kind or 'ArrayToPointer' in kind or 'UnsafeFnPointer' in kind:
            self.write(da, do, 8, self.scalar(fr, op)); return
        raise Unsupported('cast ' + kind)

    def aggregate(self, fr, da, do, dty, k, ops):
        P = self.P; T = P.types[dty]
        if k[0] == 'array':
            n = P.size(T['elem'])
            for i, o in enumerate(ops): self.assign_operand(fr, da, do + i * n, T['elem'], o)
            return
        if k[0] in ('tuple', 'closure'):
            for o, ft, off in zip(ops, T['fields'], T['offs']): self.assign_operand(fr, da, do + off, ft, o)
            return
        if k[0] == 'rawptr':
            self.assign_operand(fr, da, do, self.optype(fr, ops[0]), ops[0])
            if P.size(dty) == 16: self.write(da, do + 8, 8, self.scalar(fr, ops[1]))
            return
        if k[0] == 'adt':
            v = T['variants'][k[1]]
            if k[2] is not None:
                self.assign_operand(fr, da, do + v['offs'][k[2]], v['fields'][k[2]], ops[0]); return
            for o, ft, off in zip(ops, v['fields'], v['offs']): self.assign_operand(fr, da, do + off, ft, o)
            self.set_discr(da, do, T, k[1]); return
        raise Unsupported('aggregate ' + str(k))

    def set_discr(self, a, off, T, v):
        tg = T.get('tag')
        if not tg: return
        n = tg['size']; m = (1 << (8 * n)) - 1
        if tg['enc'] == 'direct': self.write(a, off + tg['off'], n, int(T['variants'][v]['discr']) & m)
        else:
            e = tg['enc']
            if v != e['untagged']: self.write(a, off + tg['off'], n, (int(e['start']) + v - e['lo']) & m)

    def discr(self, a, off, ty, dty):
        T = self.P.types[ty]
        if T['k'] != 'adt': return 0
        D = self.P.types[dty]
        def val(v): return i_wrap(int(T['variants'][v]['discr']), D['bits'], D['signed'])
        tg = T.get('tag')
        if not tg: return val(T.get('single', 0))
        n = tg['size']
        if tg['ptr']: x = self.read(a, i_add(off, tg['off']), 'ptr')
        else: x = self.read(a, i_add(off, tg['off']), ('tag', n))
        return self.discr_of(T, tg, x, val)

    def discr_of(self, T, tg, x, val):
        n = tg['size']; m = (1 << (8 * n)) - 1
        if x.__class__ is tuple:  # MIX of pointer and null
            return ite(x[1], self.discr_of(T, tg, x[2], val), self.discr_of(T, tg, x[3], val))
        if tg['enc'] == 'direct':
            D = {int(v['discr']) & m: i for i, v in enumerate(T['variants'])}
            if not is_t(x): return val(D.get(x & m, 0))
            if const_leaves(x): return map_ite(x, lambda y: val(D.get(y & m, 0)))
            return x
        e = tg['enc']
        if isinstance(x, (Ptr, Fn)): return val(e['untagged'])
        def one(y):
            rel = (y - int(e['start'])) & m
            return val(e['lo'] + rel) if rel <= e['hi'] - e['lo'] else val(e['untagged'])
        if not is_t(x): return one(x)
        if const_leaves(x): return map_ite(x, one)
        # symbolic niche
        r = val(e['untagged'])
        for v in range(e['lo'], e['hi'] + 1):
            c = (int(e['start']) + v - e['lo']) & m
            r = ite(i_cmp('eq', x, c), val(v), r)
        return r

    # ------------------------------------------------------------ control
    def oblige(self, kind, where, cond):
        """cond must hold whenever this point is reached"""
        if cond is True: return
        self.obls.append(Obl(kind, where, self.pc, cond))
        if is_t(cond): self.learn(cond, True)

    def learn(self, c, v):
        if not is_t(c): return
        if c.op == 'not': self.learn(c.args[0], not v); return
        self.known[c.id] = v
        if c.op == 'and' and v:
            for x in c.args: self.learn(x, True)

    def simp(self, c):
        """a condition, given the known ones"""
        memo = {}
        def go(c):
            if not is_t(c): return c
            r = memo.get(c.id)
            if r is not None: return r
            r = self.known.get(c.id)
            if r is not None: pass
            elif c.op == 'not': r = b_not(go(c.args[0]))
            elif c.op == 'and':
                r = go(c.args[0])
                if r is not False: r = b_and(r, go(c.args[1]))
            elif c.op == 'ite' and c.sort == 'b':
                k = go(c.args[0])
                r = go(c.args[1]) if k is True else go(c.args[2]) if k is False else ite(k, go(c.args[1]), go(c.args[2]))
            else: r = c
            memo[c.id] = r
            return r
        return go(c)

    def run(self, fr, bb, stops):
        """Execute from bb until a block of `stops` or return.
        -> [(condition relative to the start, memory, path condition, known, block or 'ret')]; the paths that end are left out"""
        blocks = fr.blocks
        def out(st): return [(True, self.mem, self.pc, self.known, st)]
        while True:
            if bb in stops: return out(bb)
            if self.cuts and (fr.fid, bb) in self.cuts and self.cuts[fr.fid, bb](self, fr) == 'dead': return []
            self.fuel -= 1
            if self.fuel < 0: raise Unsupported('loop does not unroll within the step limit')
            b = blocks[bb]; t = b['t']; tk = t[0]
            for s in b['s']:
                k = s[0]
                if k == '=':
                    chk = s[2][0] == 'cbin' and tk == 'assert'
                    self.assign(fr, s[1], s[2], chk)
                elif k == 'sd':
                    a, off, ty, _ = self.loc(fr, s[1]); self.set_discr(a, off, self.P.types[ty], s[2])
                elif k == 'cno':
                    sp, dp, n = self.scalar(fr, s[1]), self.scalar(fr, s[2]), self.scalar(fr, s[3])
                    el = self.P.types[self.optype(fr, s[1])]['elem']
                    self.copy(dp.a, dp.o, sp.a, sp.o, n * self.P.size(el), el)
                else: raise Unsupported('statement ' + k)
            if tk == 'goto': bb = t[1]
            elif tk == 'return': return out('ret')
            elif tk == 'switch':
                x = self.scalar(fr, t[1])
                if x.__class__ is tuple or isinstance(x, (Ptr, Fn)): raise Unsupported('switch on pointer')
                if sort_of(x) == 'b' and is_t(x): x = self.simp(x)
                if is_t(x):
                    r = self.fork(fr, bb, x, t, stops)
                    if r.__class__ is list: return r
                    if r == 'ret': return out('ret')
                    bb = r; continue
                if x is True: x = 1
                elif x is False: x = 0
                ty = self.optype(fr, t[1])
                bb = t[3]
                T = self.P.types[ty] if ty is not None else None
                if T and T['k'] == 'int' and T['signed']: x &= (1 << T['bits']) - 1
                for v, tgt in t[2]:
                    if int(v) == x: bb = tgt; break
            elif tk == 'assert':
                c = self.scalar(fr, t[1])
                if not t[2]: c = b_not(c)
                c = self.simp(c)
                if c is False:
                    self.obls.append(Obl('panic: ' + t[3], fr.name + ' @ ' + t[5], self.pc, False)); return []
                self.oblige('panic: ' + t[3], fr.name + ' @ ' + t[5], c)
                bb = t[4]
            elif tk == 'call':
                if not self.call(fr, t): return []
                bb = t[4]
            elif tk == 'drop':
                if t[3] and not self.drop(fr, t): return []
                bb = t[2]
            elif tk == 'unreachable':
                return []
            else: raise Unsupported('terminator ' + tk)

    def drop(self, fr, t):
        """run the drop glue of a place; values that only own heap memory are left alone"""
        ty = self.ptype(fr, t[1]); nm = self.P.types[ty]['name']
        if OWNS_HEAP.match(nm): return True
        fn = self.P.fns.get(t[4])
        if fn is None or 'body' not in fn: raise Unsupported('drop of ' + nm)
        a, off, _, _ = self.loc(fr, t[1])
        g = Frame(self, t[4], fn)
        self.write(g.alloc(1), 0, 8, Ptr(a, off))
        ok = self.enter(g); g.free(self)
        return ok

    def fork(self, fr, bb, x, t, stops):
        """symbolic switch: run both sides, merge where they meet.  -> the block to go on with, or the states to return"""
        ip = self.P.ipdom(fr.fid).get(bb, None)
        # conditions per target
        ty = self.optype(fr, t[1]); T = self.P.types[ty]
        groups = []
        if sort_of(x) == 'b':
            rest = True
            for v, tgt in t[2]:
                c = x if int(v) else b_not(x)
                groups.append((c, tgt)); rest = b_and(rest, b_not(c))
            if rest is not False: groups.append((rest, t[3]))
        else:
            rest = True
            for v, tgt in t[2]:
                v = int(v)
                if T['k'] == 'int' and T['signed']: v = i_wrap(v, T['bits'], True)
                c = self.simp(i_cmp('eq', x, v))
                groups.append((c, tgt)); rest = self.simp(b_and(rest, b_not(c)))
            groups.append((rest, t[3]))
        groups = [(c, g) for c, g in groups if c is not False]
        # drop targets that are plain unreachable blocks
        live = [(c, g) for c, g in groups if g is not None and not (fr.blocks[g]['t'][0] == 'unreachable' and not fr.blocks[g]['s'])]
        if len(live) == 1: return live[0][1]
        for c, g in live:
            if c is True: return g
        # the branches meet at the post-dominator, or at the head of a loop around them for its next iteration
        heads = self.P.loops(fr.fid).get(bb, set())
        ends = stops | heads | {ip}
        mem0, pc0, kn0 = self.mem, self.pc, self.known
        at = {}; dead = []
        for c, g in live:
            self.branch(mem0, b_and(pc0, c), kn0, c)
            r = self.run(fr, g, ends)
            if not r: dead.append(c)
            for c2, m, pc, kn, st in r: at.setdefault(st, []).append((b_and(c, c2), m, pc, kn))
        def back():
            self.pc = pc0; self.known = kn0; self.tok = object()
            # branches that died: their conditions are excluded from here on
            for c in dead: self.learn(c, False); self.pc = b_and(self.pc, b_not(c))
        while True:
            todo = [st for st in at if st != 'ret' and st not in stops]
            if len(at) == 1:
                st, = at
                self.mem = mem0; back()
                self.mem = self.merge(at[st])
                return st
            if not todo:
                if not at: self.mem = mem0; back(); return []
                l = []
                for st in at:
                    c, pc, kn = self.together(at[st], pc0, kn0)
                    self.pc = pc; self.known = kn; self.tok = object()
                    l.append((c, self.merge(at[st]), pc, kn, st))
                back()
                return l
            # the next iteration first
            st = next((st for st in todo if st in heads and st != ip), todo[0])
            g = at.pop(st)
            c, pc, kn = self.together(g, pc0, kn0)
            self.known = dict(kn); self.pc = pc; self.tok = object()
            self.mem = dict(self.merge(g)); self.tok = object()
            r = self.run(fr, st, stops | {ip})
            if not r: dead.append(c)
            for c2, m, pc, kn, s2 in r: at.setdefault(s2, []).append((b_and(c, c2), m, pc, kn))

    def branch(self, mem, pc, known, c):
        # every alloc must be copied on write by this branch
        self.mem = dict(mem); self.tok = object(); self.known = dict(known)
        self.pc = pc; self.learn(c, True)

    def together(self, g, pc0, kn0):
        """condition, path condition and known facts of merged states"""
        if len(g) == 1: return g[0][0], g[0][2], g[0][3]
        c = g[0][0]
        for x in g[1:]: c = b_or(c, x[0])
        kn = self.known; self.known = dict(kn0); self.learn(c, True); kn, self.known = self.known, kn
        return c, b_and(pc0, c), kn

    def merge(self, g):
        """one memory for states with disjoint conditions"""
        m = g[-1][1]
        for c2, m2, _, _ in reversed(g[:-1]):
            out = {}
            for a in m2:
                if a in m: out[a] = m[a] if m[a] is m2[a] else self.merge_alloc(c2, m2[a], m[a])
                else: out[a] = m2[a]
            for a in m:
                if a not in m2: out[a] = m[a]
            m = out
        return m

    def call(self, fr, t):
        P = self.P
        f = t[1]
        ft = self.optype(fr, f); FT = P.types[ft]
        if FT['k'] == 'fndef':
            if 'inst' not in FT: raise Unsupported('unresolved call ' + FT['name'])
            fid = FT['inst']
        else:
            p = self.scalar(fr, f)
            if not isinstance(p, Fn): raise Unsupported('indirect call')
            fid = p.i
        fn = P.fns.get(fid)
        if fn is None: raise Unsupported('call of unknown function')
        name = fn['name']
        da, do, dty, _ = self.loc(fr, t[3])
        h = self.contracts.get(name)
        if h is not None:
            args = []
            for o in t[2]:
                ty = self.optype(fr, o); a = self.new(P.size(ty), ty); self.assign_operand(fr, a, 0, ty, o); args.append((a, 0, ty))
            h(self, args, (da, do, dty)); return True
        if self.fmt:
            h = self.fmt.call(name, fr, t, da, do, dty)
            if h is not None: return h
        elif 'body' in fn and name.startswith(('core::fmt::', 'std::fmt::')) and t[4] is not None: return True    # message of a panic: its value is never read
        if 'body' not in fn: return self.builtin(fr, fn, t, da, do, dty)
        ops = t[2]
        if 'hint::select_unpredictable' in name and P.is_scalar(dty):
            b, x, y = [self.scalar(fr, o) for o in ops]
            self.write(da, do, P.size(dty), x if b is True else y if b is False else self.merge_val(b, x, y)); return True
        if name.endswith('<impl f64>::total_cmp'):
            x, y = [self.slot(self.get(p.a), p.o, 8, 'float') for p in (self.scalar(fr, o) for o in ops)]
            if not is_t(x) and not is_t(y): v = f_total_cmp(x, y)
            else: # two zeros, and NaN: whatever order
                v = ite(f_cmp('flt', x, y), -1, ite(f_cmp('flt', y, x), 1, ite(b_or(f_isnan(x), b_or(f_isnan(y), f_cmp('feq', x, 0.0))), uf('total_cmp', (x, y), 'i', -1, 1), 0)))
            self.write(da, do, P.size(dty), v); return True
        body = fn['body']
        g = Frame(self, fid, fn)
        if len(ops) != body['args']:
            # closure called through the rust-call ABI: the last operand is a tuple
            for i, o in enumerate(ops[:-1]):
                ty = g.tys[i + 1]; self.assign_operand(fr, g.alloc(i + 1), 0, ty, o)
            tty = P.types[self.optype(fr, ops[-1])]
            ta = self.new(tty['size'], self.optype(fr, ops[-1])); self.assign_operand(fr, ta, 0, self.optype(fr, ops[-1]), ops[-1])
            for j, (ft, off) in enumerate(zip(tty['fields'], tty['offs'])):
                i = len(ops) + j
                self.copy(g.alloc(i), 0, ta, off, P.size(ft), ft)
        else:
            for i, o in enumerate(ops):
                ty = g.tys[i + 1]; self.assign_operand(fr, g.alloc(i + 1), 0, ty, o)
        ok = self.enter(g)
        if ok and P.size(dty): self.copy(da, do, g.alloc(0), 0, P.size(dty), dty)
        g.free(self)
        return ok

    def enter(self, g):
        self.called[g.name] = self.called.get(g.name, 0) + 1
        self.depth += 1
        if self.depth > 200: raise Unsupported('recursion')
        r = self.run(g, 0, frozenset())
        self.depth -= 1
        if not r: return False
        (_, self.mem, self.pc, self.known, _), = r
        return True

    def builtin(self, fr, fn, t, da, do, dty):
        name = fn['name']; it = fn.get('intrinsic'); P = self.P; ops = t[2]
        if fn.get('empty'): return True
        def put(v): self.write(da, do, P.size(dty), v); return True
        def arg(i): return self.scalar(fr, ops[i])
        if it:
            base = it[:-3].rstrip('_') if it.endswith(('f64', 'f32')) else it
            if it.endswith('f32') : raise Unsupported('f32')
            if base in FINTR: 
                if P.types[dty].get('size') != 8: raise Unsupported('f32')
                return put(f_op(FINTR[base], *[arg(i) for i in range(len(ops))]))
            if base == 'powi':
                n = arg(1); x = arg(0)
                if is_t(n) or abs(n) > 16: raise Unsupported('powi')
                return put(f_powi(x, n))
            if base in CMATH: return put(f_op(CMATH[base], *[arg(i) for i in range(len(ops))]))
            if it == 'cold_path' or it == 'assert_inhabited' or it == 'assume' or it == 'assert_zero_valid': return True
            if it in ('likely', 'unlikely', 'black_box'): return put(arg(0))
            if it in ('ptr_offset_from_unsigned', 'ptr_offset_from'):
                a, b = arg(0), arg(1)
                el = P.types[self.optype(fr, ops[0])]['elem']
                return put(i_div(i_sub(a.o, b.o), P.size(el)))
            if it in ('unchecked_add', 'wrapping_add', 'unchecked_sub', 'wrapping_sub', 'unchecked_mul', 'wrapping_mul'):
                return put(self.binop(it.split('_')[1].capitalize(), dty, arg(0), arg(1)))
            if it in ('unchecked_div', 'unchecked_rem', 'exact_div'):
                return put(self.binop('Div' if 'div' in it else 'Rem', dty, arg(0), arg(1)))
            if it in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
                T = P.types[dty]; TT = P.types[T['fields'][0]]
                v = {'a': i_add, 's': i_sub, 'm': i_mul}[it[0]](arg(0), arg(1)); lo, hi = rng(TT['bits'], TT['signed'])
                self.write(da, do + T['offs'][0], TT['size'], i_wrap(v, TT['bits'], TT['signed']))
                self.write(da, do + T['offs'][1], 1, b_not(b_and(i_cmp('le', lo, v), i_cmp('le', v, hi))))
                return True
            if it == 'saturating_sub' or it == 'saturating_add':
                T = P.types[dty]; lo, hi = rng(T['bits'], T['signed'])
                v = (i_sub if 'sub' in it else i_add)(arg(0), arg(1))
                return put(ite(i_cmp('lt', v, lo), lo, ite(i_cmp('lt', hi, v), hi, v)))
            if it in ('integer_min', 'integer_max'):
                x, y = arg(0), arg(1)
                return put(ite(i_cmp('le', x, y), *((x, y) if it == 'integer_min' else (y, x))))
            if it == 'size_of': return put(P.size(fn['targs'][0]))
            if it in ('min_align_of', 'align_of'): return put(P.types[fn['targs'][0]]['align'])
            if it in ('abort', 'unreachable'):
                self.obls.append(Obl('panic: ' + it, fr.name + ' @ ' + t[5], self.pc, False)); return False
            if it == 'three_way_compare': return put(self.binop('Cmp', self.optype(fr, ops[0]), arg(0), arg(1)))
            if it in ('write_bytes', 'copy_nonoverlapping', 'copy'):
                sp, dp, n = arg(0), arg(1), arg(2)
                el = P.types[self.optype(fr, ops[0])]['elem']
                if it == 'write_bytes': raise Unsupported(it)
                self.copy(dp.a, dp.o, sp.a, sp.o, n * P.size(el), el); return True
            if it == 'select_unpredictable': 
                b, x, y = arg(0), arg(1), arg(2)
                return put(x if b is True else y if b is False else self.merge_val(b, x, y))
            if it in ('typed_swap_nonoverlapping',):
                x, y = arg(0), arg(1); el = P.types[self.optype(fr, ops[0])]['elem']; n = P.size(el)
                tmp = self.new(n, el); self.copy(tmp, 0, x.a, x.o, n, el); self.copy(x.a, x.o, y.a, y.o, n, el); self.copy(y.a, y.o, tmp, 0, n, el); return True
            if it in ('read_via_copy', 'volatile_load'):
                p = arg(0); self.copy(da, do, p.a, p.o, P.size(dty), dty); return True
            if it == 'write_via_move':
                p = arg(0); el = P.types[self.optype(fr, ops[0])]['elem']; self.assign_operand(fr, p.a, p.o, el, ops[1]); return True
            raise Unsupported('intrinsic ' + it)
        if 'cmath::' in name:
            b = name.split('::')[-1]
            if b in CMATH: return put(f_op(CMATH[b], *[arg(i) for i in range(len(ops))]))
        if name.startswith(PANIC) or 'panic' in name or name.endswith('_failed') or '_fail' in name:
            self.obls.append(Obl('panic: ' + name, fr.name + ' @ ' + t[5], self.pc, False)); return False
        if name.startswith(('core::fmt::', 'std::fmt::', 'alloc::fmt::')) and t[4] is not None: return True    # message of a panic: its value is never read
        if t[4] is None:
            self.obls.append(Obl('diverges: ' + name, fr.name + ' @ ' + t[5], self.pc, False)); return False
        raise Unsupported('no body for ' + name)

    # ------------------------------------------------------------ entry
    def start(self, name):
        fn = self.P.find(name)
        if 'body' not in fn: raise LookupError('no body for ' + name)
        return Frame(self, fn['id'], fn)

def unmix(p):
    # pointer in one branch, null/dead in the other: a dereference implies the former
    while p.__class__ is tuple and p[0] == 'MIX':
        a, b = unmix(p[2]), unmix(p[3])
        if isinstance(a, Ptr) and not isinstance(b, Ptr): p = a
        elif isinstance(b, Ptr) and not isinstance(a, Ptr): p = b
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.a == b.a: p = Ptr(a.a, ite(p[1], a.o, b.o))
        else: break
    return p

def same_null(x): return not isinstance(x, (Ptr, Fn)) and not is_t(x) and x == 0

class Frame:
    __slots__ = ('fid', 'name', 'tys', 'blocks', 'locs', 'ex')
    def __init__(self, ex, fid, fn):
        self.fid = fid; self.name = fn['name']; self.tys = fn['body']['locals']; self.blocks = fn['body']['blocks']
        # allocation ids are reserved up front so that both sides of a fork agree
        n = len(self.tys); self.locs = ex.next; ex.next += n; self.ex = ex
    def alloc(self, l):
        a = self.locs + l
        ex = self.ex
        if a not in ex.mem:
            ty = self.tys[l]
            ex.mem[a] = Alloc(ex.P.size(ty), ty, ex.tok)
        return a
    def free(self, ex):
        for a in range(self.locs, self.locs + len(self.tys)): ex.mem.pop(a, None)

# ---------------------------------------------------------------- values
def build(ex, a, off, ty, v):
    """Store the Python value v (scalar / nested list / dict of fields) as type ty."""
    P = ex.P; T = P.types[ty]; k = T['k']
    if k == 'ref' and not isinstance(v, Ptr):
        b = ex.new(P.size(T['elem']), T['elem']); build(ex, b, 0, T['elem'], v)
        ex.write(a, off, 8, Ptr(b, 0)); ex.lent.append((b, T['elem'])); return
    if P.is_scalar(ty):
        n = T['size']
        if k == 'float' and isinstance(v, int) and not isinstance(v, bool): v = float(v)
        ex.write(a, off, n, v); return
    if k == 'array':
        n = P.size(T['elem'])
        for i, x in enumerate(v): build(ex, a, off + i * n, T['elem'], x)
        return
    if k == 'tuple':
        for x, ft, o in zip(v, T['fields'], T['offs']): build(ex, a, off + o, ft, x)
        return
    if k == 'adt' and len(T['variants']) == 1:
        V = T['variants'][0]
        if isinstance(v, dict): v = [v[n] for n in V['fnames']]
        for x, ft, o in zip(v, V['fields'], V['offs']): build(ex, a, off + o, ft, x)
        return
    if isinstance(v, EnumVal):
        # payloads of the variants that can occur, then the tag
        cand = [i for i, n in enumerate(v.names) if i_cmp('eq', v.discr, i) is not False]
        if sum(1 for i in cand if T['variants'][i]['fields']) > 1: raise Unsupported('build ' + T['name'])
        for i in cand:
            V = T['variants'][i]
            for x, ft, o in zip(v.v[v.names[i]] or [], V['fields'], V['offs']): build(ex, a, off + o, ft, x)
        tg = T.get('tag')
        if not tg: return
        if len(cand) == 1: ex.set_discr(a, off, T, cand[0]); return
        if tg['enc'] != 'direct': raise Unsupported('build ' + T['name'])
        m = (1 << (8 * tg['size'])) - 1; x = None
        for i in cand:
            q = int(T['variants'][i]['discr']) & m; x = q if x is None else ite(i_cmp('eq', v.discr, i), q, x)
        ex.write(a, off + tg['off'], tg['size'], x); return
    raise Unsupported('build ' + T['name'])

def flat(v):
    if isinstance(v, EnumVal): return [v.discr] + [x for n in v.names for x in flat(v.v[n] or [])]
    if isinstance(v, dict): v = list(v.values())
    return [x for y in v for x in flat(y)] if isinstance(v, (list, tuple)) else [v]

class EnumVal:
    """value of an enum: discr term and payload per variant name"""
    def __init__(self, discr, variants): self.discr = discr; self.v = variants
    def __repr__(self): return 'EnumVal(%r,%r)' % (self.discr, self.v)

def extract(ex, a, off, ty):
    P = ex.P; T = P.types[ty]; k = T['k']
    if P.size(ty) == 0 and not (k == 'adt'): return ()
    if P.is_scalar(ty):
        if k in ('ref', 'ptr'):
            p = ex.read(a, off, ty)
            return extract(ex, p.a, p.o, T['elem'])
        kd, n = ex.kind(ty)
        return ex.slot(ex.get(a), off, n, kd)
    if k == 'array':
        n = P.size(T['elem'])
        return [extract(ex, a, off + i * n, T['elem']) for i in range(T['len'])]
    if k == 'tuple': return [extract(ex, a, off + o, ft) for ft, o in zip(T['fields'], T['offs'])]
    if k == 'adt':
        if T['ak'] == 'Struct':
            V = T['variants'][0]
            return {n: extract(ex, a, off + o, ft) for n, ft, o in zip(V['fnames'], V['fields'], V['offs'])}
        # enum: discriminant as variant index
        tg = T.get('tag'); names = [v['name'] for v in T['variants']]
        def val(v): return v
        if not tg: d = T.get('single', 0)
        else:
            x = ex.read(a, off + tg['off'], 'ptr' if tg['ptr'] else ('tag', tg['size']))
            d = ex.discr_of(T, tg, x, val)
        vs = {}
        for V in T['variants']:
            try: vs[V['name']] = [extract(ex, a, off + o, ft) for ft, o in zip(V['fields'], V['offs'])]
            except Unsupported: vs[V['name']] = None
        e = EnumVal(d, vs); e.names = names
        return e
    raise Unsupported('extract ' + T['name'])

def call(ex, name, *args):
    """Run function `name` on Python values; returns the extracted result or None if it always panics."""
    fr = ex.start(name)
    body = ex.P.fns[fr.fid]['body']
    if body['args'] != len(args): raise LookupError('%s: expected %d arguments' % (name, body['args']))
    for i, v in enumerate(args): build(ex, fr.alloc(i + 1), 0, fr.tys[i + 1], v)
    ex.calls.append(name)
    before = [(b, ty, flat(extract(ex, b, 0, ty))) for b, ty in ex.lent]
    if not ex.enter(fr): return None
    for b, ty, v in before:
        w = flat(extract(ex, b, 0, ty))
        if not (len(v) == len(w) and all(same(x, y) for x, y in zip(v, w))): ex.frame.append(ex.P.types[ty]['name'])
    r = extract(ex, fr.alloc(0), 0, fr.tys[0])
    return r
