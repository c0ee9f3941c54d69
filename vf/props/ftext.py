"""Printed text: the trace of a formatting function is the specified sequence of literals and values."""
import time
import z3
from ..core import *
from .. import fmt
from ..exec import Exec, call, EnumVal
from ..z3be import Z, zb, rv
TRUST = ['core::fmt of the primitive types prints what it documents: integers in decimal, doubles correctly rounded (ties to even) to the given number of decimals, sign, width, fill (compared with the compiled code on every run)',
         'the sink (formatter, standard output) accepts what is written']

def sym(P, ty, nm):
    T = P.types[ty]
    if T['k'] == 'int': return var(nm, 'i', *rng(T['bits'], T['signed']))
    if T['k'] == 'float': return var(nm, 'f')
    if T['k'] == 'adt' and len(T['variants']) == 1: return {k: sym(P, t, nm + '.' + k) for k, t in zip(T['variants'][0]['fnames'], T['variants'][0]['fields'])}
    if T['k'] == 'tuple': return [sym(P, t, nm + '.%d' % i) for i, t in enumerate(T['fields'])]
    if T['k'] == 'array': return [sym(P, T['elem'], nm + '.%d' % i) for i in range(T['len'])]
    if T['k'] == 'ref': return sym(P, T['elem'], nm)
    raise Unsupported('symbolic value of ' + T['name'])

def display(c, name, crate='tofas', value=None):
    """<T as Display>::fmt on a symbolic value -> (value, trace, executor)"""
    P = c.prog(crate); ex = Exec(P); F = fmt.Fmt(ex); s = F.sink(); fp = F.formatter(s)
    c.functions[name] = 'contract'
    fr = ex.start(name)
    v = sym(P, fr.tys[1], 'v') if value is None else value
    r = call(ex, name, v, fp)
    for f in ex.called:
        if 'tofas' in f: c.functions.setdefault(f, 'inlined into its callers')
    if r is None: raise Unsupported('never returns')
    if not isinstance(r, EnumVal) or r.discr != 0: raise Unsupported('formatting may fail')
    return v, F.trace(s), ex

def expect(c, what, trace, spec, Zi, hyps, pick, nonneg=()):
    """spec: [('lit', bytes) | ('int'|'float', term, canonical options)]; proves that every feasible way of printing is spec"""
    spec = fmt.fuse(spec); its = []
    try: ways = fmt.paths(trace)
    except Unsupported as e: return c.record('ensures %s prints the specified text' % what, 'vc-generator', False, 0, str(e))
    for i, (pc, evs) in enumerate(ways):
        h = list(hyps) + [zb(Zi.t(x)) for x in pc]; tag = what + (' [way %d]' % (i + 1) if len(ways) > 1 else '')
        bad = mismatch(evs, spec, nonneg)
        if bad:
            # a way of printing that no value takes is harmless
            if pc: its.append(('ensures %s prints the specified text (%s)' % (tag, bad), h, z3.BoolVal(False), pick))
            else: c.record('ensures %s prints the specified text' % tag, 'trace comparison', False, 0, bad)
            continue
        c.record('ensures %s: literals, order and number formats are as specified' % tag, 'trace comparison', True)
        for k, (e, s) in enumerate(zip(evs, spec)):
            if e[0] == 'lit': continue
            n = 'ensures %s: value %d printed is the one specified' % (tag, k // 2 + 1)
            if e[1] is s[1] or callable(s[1]) and s[1].ref is e[1] or (not callable(s[1]) and not is_t(e[1]) and not is_t(s[1]) and key(e[1]) == key(s[1])): c.record(n, 'term identity', True); continue
            its.append((n, h, same_value(Zi, e, s), pick))
    if its: c.z3(Zi, its, timeout=60)

def mismatch(evs, spec, nonneg=()):
    """why the literals, order or number formats differ from the specification, or None"""
    if len(evs) != len(spec): return 'printed as %s' % text(evs)
    for e, s in zip(evs, spec):
        if e[0] != s[0]: return 'printed as %s' % text(evs)
        if e[0] == 'lit':
            if e[1] != s[1]: return 'text %r instead of %r' % (e[1].decode('utf-8', 'replace'), s[1].decode('utf-8', 'replace'))
        elif e[0] != 'mark':
            f = fmt.canon(e[0], e[2], any(s[1] is x for x in nonneg))
            if f != s[2]: return 'value formatted as %s instead of %s' % (f, s[2])
    return None

def same_value(Zi, e, s):
    """the value printed is the specified one"""
    if callable(s[1]): return s[1](Zi, Zi.t(e[1]))
    a, b = Zi.t(e[1]), Zi.t(s[1])
    return a == b if e[0] == 'int' else z3.And(zb(a.nan) == zb(b.nan), a.v == b.v)

def text(evs):
    return ' '.join(repr(e[1].decode('utf-8', 'replace')) if e[0] == 'lit' else '<loop>' if e[0] == 'mark' else '{%s}' % show(e[1], 2) if is_t(e[1]) else '{%r}' % (e[1],) for e in evs)[:300]

def compare(c, what, trace, cmd, cases, pick=lambda o: o):
    """self-check: the trace rendered at concrete inputs is the text printed by the compiled code.  cases: [(args, {variable term: value})]"""
    t = time.time(); outs = c.replay([(cmd, a) for a, _ in cases]); roots = fmt.terms(trace); bad = None; n = 0
    from .. import term
    term.CONCRETE[0] = True
    try:
        for (a, m), o in zip(cases, outs):
            if o[0] != 'ok': continue
            vals = dict(zip([x.id for x in roots], subst(roots, {k.id: v for k, v in m.items()}))) if roots else {}
            mine = fmt.render(trace, lambda x: vals[x.id] if is_t(x) else x); n += 1
            if mine != pick(o[1]): bad = '%s%r: the trace says %r, the compiled code prints %r' % (cmd, tuple(a), mine, pick(o[1])); break
    finally: term.CONCRETE[0] = False
    c.record('self-check: the trace of %s reads as the text the compiled code prints (%d inputs)' % (what, n), 'vc-generator', bad is None, time.time() - t, bad)

def varmap(v, path=()):
    """leaves of a symbolic value in field order"""
    if isinstance(v, dict): return [x for y in v.values() for x in varmap(y)]
    if isinstance(v, (list, tuple)): return [x for y in v for x in varmap(y)]
    return [v]
