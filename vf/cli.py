"""Contracts of what the command-line tools depend on: the argument parser, the error type, standard
output, and the library functions whose results they print.

The command line is ghost state: for every option key whether it is given, whether its text parses,
and its value; the subcommand; whether a flag is given; how many arguments are left over.  Library
functions are callees under contract: the result of one is a symbol determined by its arguments."""
import re
from .term import *
from .exec import Ptr, Fn, Unsupported, EnumVal, extract, build
from .fmt import Trace
ERR = 0x1000          # every error value: which one is not part of any contract here

def zero(ex, ty):
    """some value of a type, for the payload of an error"""

class Lib:
    """library functions as symbols: equal arguments give equal results"""
    def __init__(self): self.memo = {}; self.n = 0
    def value(self, P, ty, nm):
        """symbolic value of a type; a Result is (accepted, payload)"""
        T = P.types[ty]
        if T['k'] == 'int': return var(nm, 'i', *rng(T['bits'], T['signed']))
        if T['k'] == 'float': return var(nm, 'f')
        if T['k'] == 'adt' and len(T['variants']) == 1: return {k: self.value(P, t, nm + '.' + k) for k, t in zip(T['variants'][0]['fnames'], T['variants'][0]['fields'])}
        if T['k'] == 'tuple': return [self.value(P, t, nm + '.%d' % i) for i, t in enumerate(T['fields'])]
        if T['k'] == 'array': return [self.value(P, T['elem'], nm + '.%d' % i) for i in range(T['len'])]
        if T['k'] == 'adt' and T['name'].startswith('std::result::Result<'): return Res(var(nm + '.ok', 'b'), self.value(P, T['variants'][0]['fields'][0], nm))
        if T['k'] == 'adt' and T['name'].startswith('std::option::Option<'): return Res(var(nm + '.some', 'b'), self.value(P, T['variants'][1]['fields'][0], nm))
        if T['k'] == 'bool': return var(nm, 'b')
        raise Unsupported('result type ' + T['name'])
    def call(self, P, name, args):
        k = (name, tuple(x.id if is_t(x) else key(x) for x in flat(args)))
        if k not in self.memo:
            fn = P.find(name); self.n += 1
            self.memo[k] = self.value(P, fn['body']['locals'][0], '%s%d' % (re.sub(r'\W+', '_', name.split('::')[-2] + '_' + name.split('::')[-1]), self.n))
        return self.memo[k]

class Res:
    def __init__(self, ok, v): self.ok = ok; self.v = v

def flat(v):
    if isinstance(v, Res): return [v.ok] + flat(v.v)
    if isinstance(v, EnumVal) and 'Some' in v.names: return [i_cmp('eq', v.discr, v.names.index('Some'))] + flat(v.v['Some'])
    if isinstance(v, EnumVal): return flat(v.discr) + [x for n in v.names for x in flat(v.v[n] or [])]
    if isinstance(v, dict): v = list(v.values())
    if isinstance(v, (list, tuple)): return [x for y in v for x in flat(y)]
    return [v]

class Cli:
    def __init__(self, ex, F, lib, libnames):
        self.ex = ex; self.F = F; self.lib = lib; self.keys = {}; self.subs = {}; self.calls = []
        F.out = F.sink()
        P = ex.P
        for f in P.fns.values():
            n = f['name']
            for pat, h in ((r'pico_args::Arguments::from_env', self.nothing), (r'pico_args::Arguments::(opt_)?value_from_str::<&str, (\w+)>', self.value),
                           (r'pico_args::Arguments::contains::<&str>', self.contains), (r'pico_args::Arguments::finish', self.finish), (r'pico_args::Arguments::subcommand', self.subcommand),
                           (r'anyhow::error::<impl std::convert::From<.*> for anyhow::Error>::from', self.error), (r'anyhow::__private::format_err', self.error), (r'anyhow::error::<impl anyhow::Error>::msg.*', self.error),
                           (r'core::str::traits::<impl std::cmp::PartialEq for str>::eq', self.str_eq)):
                m = re.fullmatch(pat, n)
                if m: ex.contracts[n] = (lambda h, m: lambda e, a, d: h(m, a, d))(h, m)
        for n in libnames:
            if P.has(n): ex.contracts[n] = (lambda n: lambda e, a, d: self.libcall(n, a, d))(n)
        self.n = var('leftover', 'i', 0, 2**62)

    # ---- writing values
    def canon_err(self, a, o, ty):
        """some error value of type ty"""
        ex = self.ex; T = ex.P.types[ty]
        if T['k'] == 'adt' and T.get('tag'): ex.set_discr(a, o, T, 0)
    def put(self, a, o, ty, v):
        """a library or command-line value"""
        ex = self.ex; T = ex.P.types[ty]
        if isinstance(v, Res):
            x, y = ex.new(T['size'], ty), ex.new(T['size'], ty)
            i = 1 if T['variants'][1]['name'] == 'Some' else 0
            self.put(x, T['variants'][i]['offs'][0], T['variants'][i]['fields'][0], v.v); ex.set_discr(x, 0, T, i)
            if i == 0: self.canon_err(y, T['variants'][1]['offs'][0], T['variants'][1]['fields'][0])
            ex.set_discr(y, 0, T, 1 - i)
            self.choose(a, o, ty, v.ok, x, y)
        elif isinstance(v, dict):
            V = T['variants'][0]
            for n, t, f in zip(V['fnames'], V['fields'], V['offs']): self.put(a, o + f, t, v[n])
        elif isinstance(v, (list, tuple)):
            if T['k'] == 'array':
                for i, x in enumerate(v): self.put(a, o + i * ex.P.size(T['elem']), T['elem'], x)
            else:
                for x, t, f in zip(v, T['fields'], T['offs']): self.put(a, o + f, t, x)
        else: ex.write(a, o, ex.P.size(ty), v)
    def choose(self, a, o, ty, c, x, y):
        ex = self.ex; n = ex.P.size(ty)
        m = ex.merge_alloc(c, ex.get(x), ex.get(y)) if is_t(c) else ex.get(x if c else y)
        z = ex.new(n, ty); w = ex.wr(z); w.slots = dict(m.slots); w.runs = list(m.runs)
        ex.copy(a, o, z, 0, n, ty)
    def variant(self, T, name): return [v['name'] for v in T['variants']].index(name)

    # ---- contracts
    def nothing(self, m, args, d): pass
    def text(self, arg):
        p, n = self.ex.read(arg[0], arg[1], 'ptr'), self.ex.read(arg[0], arg[1] + 8, 'usize')
        return self.F.bytes_at(p, n).decode()
    def option(self, key, ty):
        """ghost command line: (given, parses, value)"""
        k = key.lstrip('-')
        if (k, ty) not in self.keys:
            if any(x == k for x, _ in self.keys): raise Unsupported('option read as two types')
            v = var(k, 'f') if ty == 'f64' else var(k, 'i', *rng(int(ty[1:]), ty[0] == 'i'))
            self.keys[k, ty] = (var(k + '.given', 'b'), var(k + '.parses', 'b'), v)
        return self.keys[k, ty]
    def value(self, m, args, d):
        ex = self.ex; a, o, ty = d; T = ex.P.types[ty]; opt, tn = m.group(1), m.group(2); key = self.text(args[1])
        given, parses, v = self.option(key, tn)
        x, y = ex.new(T['size'], ty), ex.new(T['size'], ty)
        off, ft = T['variants'][0]['offs'][0], T['variants'][0]['fields'][0]
        if opt:
            O = ex.P.types[ft]; s, n = ex.new(O['size'], ft), ex.new(O['size'], ft); iS, iN = self.variant(O, 'Some'), self.variant(O, 'None')
            self.put(s, O['variants'][iS]['offs'][0], O['variants'][iS]['fields'][0], v); ex.set_discr(s, 0, O, iS); ex.set_discr(n, 0, O, iN)
            self.choose(x, off, ft, given, s, n); ok = b_not(b_and(given, b_not(parses)))
        else:
            self.put(x, off, ft, v); ok = b_and(given, parses)
        ex.set_discr(x, 0, T, 0)
        self.canon_err(y, T['variants'][1]['offs'][0], T['variants'][1]['fields'][0]); ex.set_discr(y, 0, T, 1)
        self.choose(a, o, ty, ok, x, y)
    def contains(self, m, args, d):
        self.ex.write(d[0], d[1], 1, var(self.text(args[1]).lstrip('-'), 'b'))
    def finish(self, m, args, d):
        ex = self.ex; a, o, ty = d
        n = 'std::vec::Vec<std::ffi::OsString>'
        lo = self.F.offs(n, 'len')
        for off, lt in ex.P.flat(ty):
            ex.write(a, o + off, ex.P.size(lt), self.n if off == lo else 8)
    def subcommand(self, m, args, d):
        ex = self.ex; a, o, ty = d; T = ex.P.types[ty]; off, ft = T['variants'][0]['offs'][0], T['variants'][0]['fields'][0]; O = ex.P.types[ft]
        s, n, x, y = ex.new(O['size'], ft), ex.new(O['size'], ft), ex.new(T['size'], ty), ex.new(T['size'], ty)
        iS, iN = self.variant(O, 'Some'), self.variant(O, 'None')
        self.F.put_string(s, O['variants'][iS]['offs'][0], Trace((('subcommand',),))); ex.set_discr(s, 0, O, iS); ex.set_discr(n, 0, O, iN)
        self.choose(x, off, ft, var('subcommand.given', 'b'), s, n); ex.set_discr(x, 0, T, 0)
        self.canon_err(y, T['variants'][1]['offs'][0], T['variants'][1]['fields'][0]); ex.set_discr(y, 0, T, 1)
        self.choose(a, o, ty, var('subcommand.utf8', 'b'), x, y)
    def is_sub(self, s):
        return i_cmp('eq', var('subcommand', 'i', 0, 1000), self.subs.setdefault(s, len(self.subs) + 1))
    def str_eq(self, m, args, d):
        ex = self.ex; v = []
        for g in args:
            a, o = g[0], g[1]
            if ex.P.types[g[2]]['size'] == 8:
                q = ex.read(a, o, 'ptr'); a, o = q.a, q.o
            p, n = ex.read(a, o, 'ptr'), ex.read(a, o + 8, 'usize')
            from .exec import unmix
            p = unmix(p)
            if isinstance(p, Ptr) and p.a in self.F.strs: v.append(None)
            else: v.append(self.F.bytes_at(p, n))
        if v[0] is None and v[1] is not None: r = self.is_sub(v[1].decode())
        elif v[1] is None and v[0] is not None: r = self.is_sub(v[0].decode())
        elif None not in v: r = v[0] == v[1]
        else: raise Unsupported('comparison of texts')
        ex.write(d[0], d[1], 1, r)
    def error(self, m, args, d): self.ex.write(d[0], d[1], 8, ERR)
    def libcall(self, name, args, d):
        vs = [extract(self.ex, *g) for g in args]
        self.calls.append((name, vs, self.ex.pc))
        self.put(d[0], d[1], d[2], self.lib.call(self.ex.P, name, vs))

class Loop:
    """A loop cut at its head.  The state that reaches the head is recorded; then the variables the loop
    assigns are arbitrary and the text printed so far is set aside; what one pass prints and leaves in
    the variables is recorded when it comes back."""
    MARK = ('mark',)
    def __init__(self, ex, F, fn, call):
        """the loop in which fn calls `call`, itself or through the functions it calls"""
        from .exec import Frame
        self.ex = ex; self.F = F; P = ex.P; self.entry = None; self.back = []
        def calls(fn):
            fr = Frame(ex, fn['id'], fn); out = {}
            for i, b in enumerate(fn['body']['blocks']):
                t = b['t']
                if t[0] != 'call': continue
                T = P.types[ex.optype(fr, t[1])]
                if 'inst' in T: out[i] = P.fns[T['inst']]
            return out
        seen = {}; todo = [fn]
        while todo:
            f = todo.pop()
            if f['id'] in seen or 'body' not in f or f['name'] == call: continue
            seen[f['id']] = (f, calls(f)); todo += seen[f['id']][1].values()
        leads = set(); n = -1          # functions that lead to the call
        while len(leads) != n:
            n = len(leads); leads |= {i for i, (f, cs) in seen.items() if any(g['name'] == call or g['id'] in leads for g in cs.values())}
        found = []
        for i in sorted(leads):
            f, cs = seen[i]; bl = f['body']['blocks']; succ = [P.succs(b['t']) for b in bl]
            def reach(src):
                got = set(); st = list(src)
                while st:
                    x = st.pop()
                    if x not in got: got.add(x); st += succ[x]
                return got
            sites = [b for b, g in cs.items() if g['name'] == call or g['id'] in leads]
            body = set()
            for b in sites:
                r = reach(succ[b])
                if b in r: body |= {x for x in r if b in reach([x])}
            if body: found.append((f, bl, succ, body, reach([0])))
        if len(found) != 1: raise Unsupported('%d loops around %s' % (len(found), call))
        self.fn, bl, succ, body, live = found[0]
        hd = {x for b in live - body for x in succ[b] if x in body}          # entered from outside
        if len(hd) != 1: raise Unsupported('loop with several entries')
        self.head = hd.pop(); self.assigned = set()
        for b in body:
            for s in bl[b]['s']:
                if s[0] in ('=', 'sd'): self.assigned.add(s[1][0])
            t = bl[b]['t']
            if t[0] == 'call': self.assigned.add(t[3][0])
        ex.cuts[self.fn['id'], self.head] = self.at
    def at(self, ex, fr):
        out = self.F.out
        if self.entry is None:
            self.vars = {}
            snap = {}
            for l in sorted(self.assigned):
                a = fr.locs + l
                if a not in ex.mem: continue
                T = ex.P.types[fr.tys[l]]
                m = ex.mem[a]
                if T['k'] == 'float' and 0 in m.slots:
                    snap[l] = m.slots[0][1]; self.vars[l] = var('loop%d' % l, 'f')
            self.entry = (ex.pc, self.F.trace(out), snap)
            for l in sorted(self.assigned):
                a = fr.locs + l
                if a not in ex.mem: continue
                if l in self.vars: ex.write(a, 0, 8, self.vars[l])
                else: ex.mem[a] = type(ex.mem[a])(ex.mem[a].size, ex.mem[a].ty, ex.tok)
            ex.write(out, 0, 8, Trace((self.MARK,)))
            self.mem0 = {a: (dict(m.slots), list(m.runs)) for a, m in ex.mem.items()}
            return None
        # one pass done: nothing else may have changed
        skip = {fr.locs + l for l in self.assigned} | {out}
        for a, (s, r) in self.mem0.items():
            if a in skip: continue
            m = ex.mem.get(a)
            if m is None: continue
            if m.runs != r or set(m.slots) != set(s) or any(m.slots[o][1] is not s[o][1] and not same_val(m.slots[o][1], s[o][1]) for o in s): raise Unsupported('the loop changes other state')
        self.back.append((ex.pc, self.F.trace(out), {l: ex.mem[fr.locs + l].slots[0][1] for l in self.vars}))
        return 'dead'

def same_val(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr): return x.a == y.a and x.o is y.o or x.a == y.a and x.o == y.o
    return not is_t(x) and not is_t(y) and x.__class__ is y.__class__ and x == y
