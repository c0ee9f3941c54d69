"""Formatting as a ghost trace.

A format string is interpreted as core::fmt documents it (template bytes, options, arguments); what a
function prints becomes a sequence of literal bytes and placeholders `value with options'.  Digit
generation for the primitive types (core::fmt of integers, doubles, str) is not analysed: it is an
external function with the documented contract (render below), which every run compares with the
compiled code.  The sink never fails."""
from fractions import Fraction as Q
import math, re
from .term import *
from .exec import Ptr, Fn, Frame, Unsupported, unmix

class Trace:
    """immutable sequence of events; compared by identity of its parts"""
    __slots__ = ('ev',)
    def __init__(self, ev): self.ev = tuple(ev)
    def __repr__(self): return 'Trace%r' % (self.ev,)

PLUS, MINUS, ALT, ZERO, WIDTH, PREC = 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 27, 1 << 28
DEFAULT = (0x20 | (3 << 29), 0, 0)

def same_ev(a, b):
    if a[0] != b[0] or len(a) != len(b): return False
    return all(x is y or (not is_t(x) and not is_t(y) and x == y and x.__class__ is y.__class__ and x.__class__ is not tuple) or
               (x.__class__ is tuple and y.__class__ is tuple and len(x) == len(y) and all(p is q or (p.__class__ in (int, bytes, str) and p == q) for p, q in zip(x, y))) or
               (x.__class__ is Trace and y.__class__ is Trace and len(x.ev) == len(y.ev) and all(same_ev(p, q) for p, q in zip(x.ev, y.ev))) for x, y in zip(a[1:], b[1:]))

def merge(c, x, y):
    """c ? x : y"""
    if x is y: return x
    a, b = list(x.ev), list(y.ev); i = 0
    while i < len(a) and i < len(b) and same_ev(a[i], b[i]): i += 1
    a2, b2 = a[i:], b[i:]
    if not a2 and not b2: return x
    return Trace(a[:i] + [('ite', c, Trace(a2), Trace(b2))])

class Fmt:
    """handlers for the formatting functions; install(ex) turns formatting from opaque to traced"""
    def __init__(self, ex):
        self.ex = ex; P = ex.P
        self.types = {}
        for i, t in enumerate(P.types): self.types.setdefault(t['name'], i)
        self.sinks = []; self.strs = set()     # allocations that hold the trace of a String's content
        ex.fmt = self

    def offs(self, tname, *path):
        """offset of a field path in a struct type"""
        P = self.ex.P; t = self.types[tname]; off = 0
        for f in path:
            T = P.types[t]; v = T['variants'][T.get('single', 0) or 0]; i = v['fnames'].index(f)
            off += v['offs'][i]; t = v['fields'][i]
        return off

    def sink(self, t=Trace(())):
        a = self.ex.new(8); self.ex.write(a, 0, 8, t); self.sinks.append(a)
        return a

    def formatter(self, sink, opts=DEFAULT):
        n = 'std::fmt::Formatter<\'_>'
        ex = self.ex
        if n not in self.types: raise Unsupported('no formatter in this crate')
        a = ex.new(ex.P.size(self.types[n]), self.types[n]); b = self.offs(n, 'buf')
        ex.write(a, b, 8, Ptr(sink, 0)); ex.write(a, b + 8, 8, 0)
        for (f, sz), v in zip((('flags', 4), ('width', 2), ('precision', 2)), opts): ex.write(a, self.offs(n, 'options', f), sz, v)
        return Ptr(a, 0)

    def trace(self, sink): return self.ex.read(sink, 0, 'ptr')

    STRING = 'std::string::String'
    def string_at(self, a, o):
        """allocation with the content of the String at (a, o)"""
        ex = self.ex
        if self.STRING not in self.types: raise Unsupported('formatting sink')
        po, lo = o + self.offs(self.STRING, 'vec', 'buf', 'inner', 'ptr'), o + self.offs(self.STRING, 'vec', 'len')
        q = ex.read(a, po, 'ptr')
        if isinstance(q, Ptr) and q.a in self.strs: return q.a
        n = ex.read(a, lo, 'usize'); t = Trace(())
        if is_t(n): raise Unsupported('symbolic string')
        if n: t = Trace((('lit', self.bytes_at(q, n)),))
        b = self.sink(t); self.strs.add(b)
        ex.write(a, po, 8, Ptr(b, 0)); ex.write(a, lo, 8, var('len%d' % b, 'i', 0, 2**63 - 1))
        return b

    def put_string(self, a, o, trace):
        """a new String with this content at (a, o)"""
        ex = self.ex; T = ex.P.types[self.types[self.STRING]]
        b = self.sink(trace); self.strs.add(b); n = var('len%d' % b, 'i', 0, 2**63 - 1)
        cap = [off for off, lt in ex.P.flat(self.types[self.STRING]) if off not in (self.offs(self.STRING, 'vec', 'buf', 'inner', 'ptr'), self.offs(self.STRING, 'vec', 'len'))]
        for off in cap: ex.write(a, o + off, 8, n)
        ex.write(a, o + self.offs(self.STRING, 'vec', 'buf', 'inner', 'ptr'), 8, Ptr(b, 0)); ex.write(a, o + self.offs(self.STRING, 'vec', 'len'), 8, n)

    def put_str(self, sink, p, n, o=DEFAULT):
        """prints the n bytes at p"""
        p, n = settle(p, n)
        if sink != self.out and not isinstance(p, Ptr): return self.opaque(sink)
        if isinstance(p, Ptr) and p.a in self.strs and not is_t(p.o) and p.o == 0 and is_t(n) and n.op == 'var' and n.args[0] == 'len%d' % p.a: evs = self.trace(p.a).ev
        elif n.__class__ is int and n == 0: evs = ()
        elif not isinstance(p, Ptr): raise Unsupported('symbolic string')
        else: evs = (('lit', self.bytes_at(p, n)),)
        fl, w, pr = o
        if fl & (PREC | ZERO): raise Unsupported('truncated text')
        if fl & WIDTH:
            if len(evs) == 1 and evs[0][0] in ('int', 'float') and not evs[0][2][0] & (WIDTH | ZERO):
                k, v, (f2, _, p2) = evs[0]; al = (fl >> 29) & 3
                evs = ((k, v, ((f2 & (PLUS | MINUS | ALT | PREC)) | (fl & 0x1fffff) | WIDTH | ((0 if al == 3 else al) << 29), w, p2)),)
            elif all(e[0] == 'lit' for e in evs):
                s = b''.join(e[1] for e in evs).decode(); al = (fl >> 29) & 3; f = chr(fl & 0x1fffff); k = max(0, w - len(s))
                evs = (('lit', (f * k + s if al == 1 else f * (k // 2) + s + f * (k - k // 2) if al == 2 else s + f * k).encode()),)
            else: raise Unsupported('padded text')
        for e in evs: self.emit(sink, e)

    def opaque(self, sink):
        """text of unknown content: equal to no text a specification asks for"""
        self.emit(sink, ('opaque',))

    def emit(self, sink, ev):
        t = self.trace(sink)
        if not isinstance(t, Trace): raise Unsupported('formatting sink')
        if ev[0] == 'lit':
            if not ev[1]: return
            if t.ev and t.ev[-1][0] == 'lit': self.ex.write(sink, 0, 8, Trace(t.ev[:-1] + (('lit', t.ev[-1][1] + ev[1]),))); return
        self.ex.write(sink, 0, 8, Trace(t.ev + (ev,)))

    def sink_of(self, p):
        """sink behind a &mut Formatter"""
        n = 'std::fmt::Formatter<\'_>'
        q = self.ex.read(p.a, p.o + self.offs(n, 'buf'), 'ptr')
        if not isinstance(q, Ptr): raise Unsupported('formatter buffer')
        return self.sink_at(q)

    def sink_at(self, q):
        if q.a in self.sinks: return q.a
        if is_t(q.o): raise Unsupported('formatting sink')
        return self.string_at(q.a, q.o)

    def opts_of(self, p):
        n = 'std::fmt::Formatter<\'_>'; r = []
        for f, sz in (('flags', 4), ('width', 2), ('precision', 2)):
            v = self.ex.read(p.a, p.o + self.offs(n, 'options', f), ('raw', sz))
            if is_t(v): raise Unsupported('symbolic formatting options')
            r.append(v)
        return tuple(r)

    def bytes_at(self, p, n):
        ex = self.ex
        if is_t(p.o) or is_t(n): raise Unsupported('symbolic string')
        m = ex.get(p.a); out = bytearray()
        for (o, k, cb, co) in m.runs:
            if o <= p.o and p.o + n <= o + k: return bytes(cb.b[co + p.o - o: co + p.o - o + n])
        for i in range(n):
            v = ex.read(p.a, p.o + i, ('raw', 1))
            if is_t(v): raise Unsupported('symbolic string')
            out.append(v)
        return bytes(out)

    def run(self, sink, args):
        """core::fmt::write: interpret the template of an Arguments value at (alloc, offset)"""
        ex = self.ex; n = 'std::fmt::Arguments<\'_>'
        tp = ex.read(args[0], args[1] + self.offs(n, 'template'), 'ptr')
        ap = ex.read(args[0], args[1] + self.offs(n, 'args'), 'ptr')
        if not isinstance(tp, Ptr): raise Unsupported('format template')
        if not isinstance(ap, Ptr):
            # a plain string: the second word is its length, shifted, with the low bit set
            if is_t(ap): raise Unsupported('symbolic string')
            self.emit(sink, ('lit', self.bytes_at(tp, ap >> 1))); return True
        pos = [0]
        def take(k):
            b = self.bytes_at(Ptr(tp.a, tp.o + pos[0]), k); pos[0] += k; return b
        def u(k): return int.from_bytes(take(k), 'little')
        an = 'core::fmt::rt::Argument<\'_>'; asz = ex.P.size(self.types[an]); nxt = 0
        def count(i):
            v = ex.read(ap.a, ap.o + i * asz + 8, ('raw', 2))
            if is_t(v): raise Unsupported('symbolic width')
            return v
        while True:
            k = u(1)
            if k == 0: return True
            if k < 0x80: self.emit(sink, ('lit', take(k))); continue
            if k == 0x80: self.emit(sink, ('lit', take(u(2)))); continue
            if k & 0xC0 != 0xC0: raise Unsupported('format template')
            fl, w, p = DEFAULT
            if k & 1: fl = u(4)
            if k & 2: w = u(2)
            if k & 4: p = u(2)
            i = nxt
            if k & 8: i = u(2)
            nxt = i + 1
            if k & 16: w = count(w)
            if k & 32: p = count(p)
            v = ex.read(ap.a, ap.o + i * asz, 'ptr'); f = ex.read(ap.a, ap.o + i * asz + 8, 'ptr')
            if not isinstance(v, Ptr) or not isinstance(f, Fn): raise Unsupported('format argument')
            if not self.dispatch(f.i, v, self.formatter(sink, (fl, w, p))): return False

    def dispatch(self, fid, v, fp):
        """<T as Display>::fmt(v, fp)"""
        ex = self.ex; P = ex.P; fn = P.fns.get(fid)
        if fn is None: raise Unsupported('formatting function')
        if 'body' in fn and self.leaf(fn['name']) is None and not fn['name'].startswith('<&'):
            g = Frame(ex, fid, fn)
            for i, x in ((1, v), (2, fp)):
                ex.write(g.alloc(i), 0, 8, x)
            ok = ex.enter(g)
            if ok:
                r = ex.read(g.alloc(0), 0, ('raw', 1))
                if is_t(r) or r: raise Unsupported('formatting error')
            g.free(ex)
            return ok
        return self.prim(fn['name'], v, None, fp)

    def leaf(self, name):
        if '<impl std::fmt::Display for ' in name and name.endswith('>::fmt') and name.startswith('core::fmt::'):
            return name.split('<impl std::fmt::Display for ')[1].split('>')[0]
        if name == '<std::string::String as std::fmt::Display>::fmt': return 'String'
        if name in ('<str as std::fmt::Display>::fmt', '<bool as std::fmt::Display>::fmt', '<char as std::fmt::Display>::fmt'): return name[1:].split(' ')[0]
        return None

    def prim(self, name, v, meta, fp):
        ex = self.ex; t = self.leaf(name)
        m = re.fullmatch(r"<(&+)(.+) as std::fmt::Display>::fmt", name)
        if m:
            # a reference prints what it refers to
            for i in range(len(m.group(1)) - (m.group(2) == 'str')): v = ex.read(v.a, v.o, 'ptr')
            if m.group(2) == 'str': v, meta = ex.read(v.a, v.o, 'ptr'), ex.read(v.a, v.o + 8, 'usize')
            elif m.group(2) not in ('f64', 'char', 'bool', 'std::string::String') and not re.fullmatch('[iu](8|16|32|64|size)', m.group(2)):
                f = ex.P.find('<%s as std::fmt::Display>::fmt' % m.group(2))
                return self.dispatch(f['id'], v, fp)
            t = m.group(2).split('::')[-1]
        if t is None:
            if name.endswith('as std::fmt::Debug>::fmt') and self.sink_of(fp) != self.out: self.opaque(self.sink_of(fp)); return True
            raise Unsupported('formatting by ' + name)
        sink = self.sink_of(fp); o = self.opts_of(fp)
        if t == 'f64': self.emit(sink, ('float', ex.read(v.a, v.o, self.types['f64']), o))
        elif t in ('i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize'):
            self.emit(sink, ('int', ex.read(v.a, v.o, self.types[t]), o))
        elif t == 'String':
            b = self.string_at(v.a, v.o); self.put_str(sink, Ptr(b, 0), ex.read(v.a, v.o + self.offs(self.STRING, 'vec', 'len'), 'usize'), o)
        elif t == 'str' and meta is not None: self.put_str(sink, v, meta, o)
        elif t == 'char' and not o[0] & (WIDTH | PREC):
            ch = ex.read(v.a, v.o, ('raw', 4))
            if is_t(ch): raise Unsupported('symbolic character')
            self.emit(sink, ('lit', chr(ch).encode()))
        else: raise Unsupported('formatting of ' + t)
        return True

    def call(self, name, fr, t, da, do, dty):
        """-> None (not a formatting function), True (handled) or False (does not return)"""
        ex = self.ex; ops = t[2]
        def arg(i):
            ty = ex.optype(fr, ops[i]); a = ex.new(ex.P.size(ty), ty); ex.assign_operand(fr, a, 0, ty, ops[i]); return a
        def done(ok=True):
            if ok and ex.P.size(dty): ex.write(da, do, 1, 0)
            return ok
        w = name.endswith(('::write_fmt', '::write_str', '::write_char', '::push_str', '::push')) and ('Formatter' in name or 'dyn std::fmt::Write' in name or 'String' in name)
        if w or name in ('std::fmt::write', 'core::fmt::write'):
            p = ex.read(arg(0), 0, 'ptr'); sink = self.sink_of(p) if 'Formatter' in name else self.sink_at(p); b = arg(1)
            if name.endswith(('::write_str', '::push_str')): self.put_str(sink, ex.read(b, 0, 'ptr'), ex.read(b, 8, 'usize')); return done()
            if name.endswith(('::write_char', '::push')):
                c = ex.read(b, 0, ('raw', 4))
                if is_t(c): raise Unsupported('symbolic character')
                self.emit(sink, ('lit', chr(c).encode())); return done()
            return done(self.run(sink, (b, 0)))
        if name.endswith('fmt::Formatter::<\'a>::pad') or name.endswith('::pad') and 'Formatter' in name:
            p = ex.read(arg(0), 0, 'ptr'); b = arg(1)
            self.put_str(self.sink_of(p), ex.read(b, 0, 'ptr'), ex.read(b, 8, 'usize'), self.opts_of(p)); return done()
        if name in ('std::fmt::format', 'alloc::fmt::format'):
            b = self.sink()
            if not self.run(b, (arg(0), 0)): return False
            self.put_string(da, do, self.trace(b)); return True
        if name in ('std::io::_print', 'std::io::stdio::_print'):
            return self.run(self.out, (arg(0), 0))
        lf = self.leaf(name)
        if lf is not None:
            a = arg(0); v = ex.read(a, 0, 'ptr'); meta = ex.read(a, 8, 'usize') if lf == 'str' else None
            return done(self.prim(name, v, meta, ex.read(arg(1), 0, 'ptr')))
        return None

    out = None

def settle(p, n):
    """a text that exists in one branch only: printing it implies that branch"""
    while p.__class__ is tuple and p[0] == 'MIX':
        a, b = unmix(p[2]), unmix(p[3])
        if isinstance(a, Ptr) == isinstance(b, Ptr): break
        if is_t(n) and n.op == 'ite' and n.args[0] is p[1]: n = n.args[1 if isinstance(a, Ptr) else 2]
        p = p[2] if isinstance(a, Ptr) else p[3]
    return p, n

# ------------------------------------------------------------------ meaning
def digits(q, p):
    """|q| with p decimals, rounded half to even"""
    n = abs(q) * 10**p; k = n.numerator // n.denominator; r = n - k
    if r > Q(1, 2) or (r == Q(1, 2) and k % 2): k += 1
    s = str(k).rjust(p + 1, '0')
    return s[:-p] + '.' + s[-p:] if p else s

def render_one(kind, v, o):
    """the documented output of core::fmt for one placeholder"""
    fl, w, p = o
    if kind == 'int': neg = v < 0; body = str(abs(v))
    else:
        neg = math.copysign(1.0, v) < 0 and not math.isnan(v)
        if math.isnan(v): body = 'NaN'
        elif math.isinf(v): body = 'inf'
        elif fl & PREC: body = digits(Q(v), p)
        else:
            body = repr(abs(v))
            if 'e' in body: body = format(Q(body).numerator // Q(body).denominator, 'd') if Q(body).denominator == 1 else format(__import__('decimal').Decimal(body), 'f')
            if body.endswith('.0'): body = body[:-2]
    sign = '-' if neg else '+' if fl & PLUS and not (kind == 'float' and math.isnan(v)) else ''
    s = sign + body
    if not fl & WIDTH or len(s) >= w: return s
    if fl & ZERO and not (kind == 'float' and not math.isfinite(v)): return sign + body.rjust(w - len(sign), '0')
    al = (fl >> 29) & 3; fill = chr(fl & 0x1fffff) if not fl & ZERO else ' '; k = w - len(s)
    if al == 0: return s + fill * k
    if al == 2: return fill * (k // 2) + s + fill * (k - k // 2)
    return fill * k + s

def render(trace, get):
    """the text printed, for concrete values of the variables"""
    s = ''
    for e in trace.ev:
        if e[0] == 'lit': s += e[1].decode('utf-8')
        elif e[0] == 'ite': s += render(e[2] if get(e[1]) else e[3], get)
        else: s += render_one(e[0], get(e[1]), e[2])
    return s

def terms(trace):
    out = []
    for e in trace.ev:
        if e[0] == 'ite': out += [e[1]] + terms(e[2]) + terms(e[3])
        elif e[0] not in ('lit', 'mark', 'opaque'): out.append(e[1])
    return [t for t in out if is_t(t)]

def paths(trace, pc=()):
    """[(conditions, [events])] over the conditional parts"""
    out = [(list(pc), [])]
    for e in trace.ev:
        if e[0] != 'ite':
            for c, evs in out: evs.append(e)
            continue
        nxt = []
        for c, evs in out:
            for cond, tr in ((e[1], e[2]), (b_not(e[1]), e[3])):
                for c2, e2 in paths(tr): nxt.append((c + [cond] + c2, evs + e2))
        out = nxt
        if len(out) > 64: raise Unsupported('too many ways of printing')
    return [(c, fuse(e)) for c, e in out]

def fuse(evs):
    out = []
    for e in evs:
        if e[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + e[1])
        else: out.append(e)
    return out

def canon(kind, o, nonneg=False):
    """options that print the same text get the same form"""
    fl, w, p = o
    if fl & MINUS or fl & ALT and kind == 'x': pass
    sign = bool(fl & PLUS)
    if not fl & WIDTH or w <= 1: pad = None; w = 0
    elif fl & ZERO: pad = '0'
    else:
        al = (fl >> 29) & 3; f = chr(fl & 0x1fffff)
        al = {0: '<', 1: '>', 2: '^', 3: '>'}[al]
        pad = '0' if f == '0' and al == '>' and nonneg and not sign else al + f
    return (sign, pad, w, p if fl & PREC else None) if kind == 'float' else (sign, pad, w)
