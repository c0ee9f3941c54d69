"""The command-line tools print the library's result for their arguments."""
import math, os, re, subprocess
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec, fmt
from ..cli import *
from .ftext import *
from . import c25
TOOLS = True
TRUSTED = TRUST + ['pico_args: an option is absent, does not parse, or has the value its text denotes; finish returns the arguments left over (compared with the compiled tools on every run)',
                   'anyhow: converting an error gives an error; a main function that returns an error ends the process with a nonzero status']
BATCH, MAXBATCH = 120, 400
SA = 'tofas_extras::sun_angle::SunAngleCalculator::'
G = 'tofas::calendar::GregorianDate::'
HM = 'tofas::calendar::HMS::'
LIB = [G + 'new', G + 'to_julian', G + 'from_julian', HM + 'to_fraction_of_day', HM + 'from_fraction_of_day', SA + 'new', SA + 'compute']
REPORT = "<tofas_extras::sun_angle::SunAngleResultBundle<'_, '_> as std::fmt::Display>::fmt"
L, I, S = c25.L, c25.I, c25.S
def R(t, w, p, sign=False): return ('float', t, (sign, '> ' if w else None, w, p))
PI = Q('3.14159265358979323846264338327950288')

def near(f, ref=None):
    """the printed value is within 2^-49 of the sum of the magnitudes of the terms of f(Zi)"""
    def g(Zi, b):
        e, m = f(Zi)
        t = m * rv(Q(1, 2**49)) + rv(Q(1, 10**15))
        return z3.And(z3.Not(zb(b.nan)), b.v - e <= t, e - b.v <= t)
    g.ref = ref
    return g
def zabs(x): return z3.If(x >= 0, x, -x)
def total(p):
    return near(lambda Z: ((lambda a, b: (a + b, zabs(a) + zabs(b)))(Z.t(p[0]).v, Z.t(p[1]).v)), f_op('fadd', *p))
def tot(v): return total(leaves(v))

def report(v):
    """the lines of the report"""
    p, r = v['parameters'], v['result']; d, t, q = p['date'], p['time'], p['position']
    deg = lambda x: near(lambda Z: (Z.t(x).v * rv(180 / PI), zabs(Z.t(x).v) * 60))
    ele = near(lambda Z: (90 - Z.t(r['sza']).v * rv(180 / PI), 90 + zabs(Z.t(r['sza']).v) * 60))
    out = [L('Date:                ')] + c25.date(d) + [L('\nTime:                ')] + c25.hms(t) + [L(' '), R(r['delta_s'], 13, 6, True), L('s\n')]
    out += [L('Julian date:         '), R(total([r['jd0'], r['jd1']]), 0, 6), L(' = '), R(r['jd0'], 0, 6), L(' + '), R(r['jd1'], 0, 6)]
    out += [L('\nPosition:            ')] + c25.pos(q['lat'], q['lon'], q['height'])
    out += [L('\n                     X='), R(r['p'][0], 16, 1), L(' Y='), R(r['p'][1], 16, 1), L(' Z='), R(r['p'][2], 16, 1)]
    out += [L('\nUTC:                 '), R(tot(r['utc']), 0, 6), L('\nDelta AT:            '), R(r['dat'], 0, 6), L('\nTAI:                 '), R(tot(r['tai']), 0, 6)]
    out += [L('\nTT:                  '), R(tot(r['tt']), 0, 6), L('\nUT1:                 '), R(tot(r['ut1']), 0, 6), L('\nERA:                 '), R(deg(r['era']), 0, 6), L('°')]
    out += [L('\nEarth position (AU): X='), R(r['earth'][0], 15, 13, True), L(' Y='), R(r['earth'][1], 15, 13, True), L(' Z='), R(r['earth'][2], 15, 13, True)]
    out += [L('\nSun position (m):    X='), R(r['sun_e'][0], 16, 0, True), L(' Y='), R(r['sun_e'][1], 16, 0, True), L(' Z='), R(r['sun_e'][2], 16, 0, True)]
    out += [L('\nSun Zenith angle:    '), R(deg(r['sza']), 7, 2), L('° or elevation: '), R(ele, 7, 2), L('°\n')]
    return out

DOM = {'era': (-10**6, 10**6), 'sza': (0, 4), 'second': (0, None)}
def domain(v):
    out = {}
    for k, x in named(v):
        if is_t(x) and x.sort == 'f': out[x.args[0]] = DOM.get(k, (-10**15, 10**15))
    return out
def named(v, k=''):
    if isinstance(v, dict): return [y for n, x in v.items() for y in named(x, n)]
    if isinstance(v, (list, tuple)): return [y for x in v for y in named(x, k)]
    return [(k, v)]
def bounds(Zi, v):
    """finite values within the ranges of the statement"""
    h = []
    for k, x in named(v):
        if not is_t(x): continue
        b = Zi.t(x)
        if x.sort == 'f': h += [z3.Not(zb(b.nan)), b.v >= rv(domain({k: x})[x.args[0]][0])] + ([b.v <= rv(domain({k: x})[x.args[0]][1])] if domain({k: x})[x.args[0]][1] is not None else [])
    if isinstance(v, dict) and 'parameters' in v:
        d = v['parameters']['date']; h.append(spec.valid(Zi.t(d['year']), Zi.t(d['month']), Zi.t(d['day'])))
    return h

def prove(c):
    c.used_contracts = ['GregorianDate::new (C01), to_julian (C02), from_julian (C03), HMS (C05), SunAngleCalculator::new and compute (C24): callees, results as symbols',
                        'pico_args::Arguments: from_env, subcommand, value_from_str, opt_value_from_str, contains, finish', 'anyhow::Error: From, format_err']
    # ---- the report
    v, tr, ex = display(c, REPORT, 'tofas_extras')
    second = v['parameters']['time']['second']
    Zi = Z(domain=domain(v)); h = bounds(Zi, v)
    c.z3_obls(Zi, ex, h); c.satisfiable(Zi, h, 'parameters and results')
    pick = lambda m: [('sun_text', [fl(m, x.args[0]) if x.sort == 'f' else m[x.args[0]] for x in order(v)])]
    expect(c, 'the report', tr, report(v), Zi, h, pick, [second])
    xs = order(v)
    compare(c, 'the report', tr, 'sun_text', [(a, dict(zip(xs, a))) for a in (texts(c.rng) for _ in range(100))], lambda o: o[0])
    # ---- the default parameters
    r, ex = c.run('<tofas_extras::sun_angle::SunAngleParameters as std::default::Default>::default', crate='tofas_extras')
    want = {'date': {'year': 2007, 'month': 4, 'day': 5}, 'time': {'hour': 0, 'minute': 0, 'second': 0.0}, 'position': {'height': 0.0, 'lat': 0.0, 'lon': -120.0}}
    ok = isinstance(r, dict) and all(r[a][b] == want[a][b] for a in want for b in want[a])
    c.record('ensures the default parameters are 2007-04-05 00:00 at 0 N 120 W', 'vc-generator', ok, 0, None if ok else repr(r))
    julian(c); sun(c)

ORDER = [('parameters', 'date'), ('parameters', 'time'), ('parameters', 'position', 'lon'), ('parameters', 'position', 'lat'), ('parameters', 'position', 'height')] + \
        [('result', k) for k in ('jd0', 'jd1', 'delta_s', 'p', 'utc', 'dat', 'tai', 'tt', 'ut1', 'era', 'earth', 'sun_e', 'sza')]
def order(v):
    out = []
    for path in ORDER:
        x = v
        for k in path: x = x[k]
        out += leaves(x)
    return out

def tool(c, crate, main):
    P = c.prog(crate); ex = Exec(P); F = fmt.Fmt(ex); lib = Lib(); cli = Cli(ex, F, lib, LIB)
    c.functions[main] = 'contract'
    return P, ex, F, lib, cli

def ends(c, ex, F, fn):
    """runs main -> (accepted, trace)"""
    from ..exec import Frame, extract
    fr = Frame(ex, fn['id'], fn)
    if not ex.enter(fr): raise Unsupported('never returns')
    r = extract(ex, fr.alloc(0), 0, fr.tys[0])
    for f in ex.called:
        if 'tool' in f or 'tofas' in f: c.functions.setdefault(f, 'inlined into its callers')
    return i_cmp('eq', r.discr, r.names.index('Ok')), F.trace(F.out)

def behave(c, what, ok, trace, cases, Zi, hyps, nonneg=(), marked=None):
    """cases: (name, condition, accepted, events); together they cover every command line.  events: None (any text), a list, or 'never'.
    marked: only the ways of ending that went through the loop (True), that did not (False)"""
    its = []
    ways = fmt.paths(trace)
    if marked is not None:
        ways = [w for w in ways if (w[1][:1] == [Loop.MARK]) == marked]
        hyps = hyps + [z3.Or(*[z3.And(*[zb(Zi.t(x)) for x in pc]) for pc, _ in ways])]
        if not ways: c.record('%s: no such path' % what, 'vc-generator', True); return
    pick = lambda m: []
    conds = [zb(Zi.t(cd)) for _, cd, _, _ in cases]
    its.append(('the cases of the specification of %s cover every command line' % what, hyps, z3.Or(*conds), pick))
    for (name, cd, acc, evs), zc in zip(cases, conds):
        h = hyps + [zc]
        if evs == 'never': its.append(('ensures %s: %s: does not happen' % (what, name), h, z3.BoolVal(False), pick)); continue
        o = zb(Zi.t(ok)) if is_t(ok) else z3.BoolVal(bool(ok))
        its.append(('ensures %s: %s: %s' % (what, name, 'accepted' if acc else 'ends with an error'), h, o if acc else z3.Not(o), pick))
        if evs is None: continue
        evs = fmt.fuse(evs); n = 0
        for i, (pc, got) in enumerate(ways):
            hw = h + [zb(Zi.t(x)) for x in pc]; bad = mismatch(got, evs, nonneg)
            if bad: its.append(('ensures %s: %s: prints the specified text (never %s)' % (what, name, bad[:80]), hw, z3.BoolVal(False), pick)); continue
            n += 1
            for k, (e, s) in enumerate(zip(got, evs)):
                if e[0] in ('lit', 'mark', 'opaque'): continue
                nm = 'ensures %s: %s: value %d is the one specified' % (what, name, k // 2 + 1)
                if e[1] is s[1] or callable(s[1]) and s[1].ref is e[1] or (not is_t(e[1]) and not is_t(s[1]) and not callable(s[1]) and key(e[1]) == key(s[1])): c.record(nm, 'term identity', True); continue
                its.append((nm, hw, same_value(Zi, e, s), pick))
        # (a case that prints in no way as specified has only obligations saying that it cannot occur)
        if n: c.record('ensures %s: %s: literals, order and number formats are as specified' % (what, name), 'trace comparison', True)
    c.z3(Zi, its, timeout=60)

def julian(c):
    P, ex, F, lib, cli = tool(c, 'julian_tool', 'julian_tool::main')
    ok, tr = ends(c, ex, F, P.find('julian_tool::main'))
    K = lambda k, ty: cli.option('--' + k, ty)
    def req(k, ty): g, p, v = K(k, ty); return b_and(g, p), v
    def opt(k, ty, d): g, p, v = K(k, ty); return b_not(b_and(g, b_not(p))), ite(g, v, d)
    sub = b_and(var('subcommand.utf8', 'b'), var('subcommand.given', 'b'))
    def any_(*xs):
        r = False
        for x in xs: r = b_or(r, x)
        return r
    def all_(*xs):
        r = True
        for x in xs: r = b_and(r, x)
        return r
    isg = b_and(sub, any_(cli.is_sub('gregorian'), cli.is_sub('g'))); isj = b_and(sub, any_(cli.is_sub('julian'), cli.is_sub('j')))
    # gregorian
    (oy, y), (om, m), (od, d) = [req(k, 'i32') for k in ('year', 'month', 'day')]
    (oh, h), (omi, mi), (os_, s) = opt('hour', 'u8', 12), opt('minute', 'u8', 0), opt('second', 'f64', 0.0)
    args = all_(oy, om, od, oh, omi, os_)
    gd = lib.call(P, G + 'new', [y, m, d]); hms = {'hour': h, 'minute': mi, 'second': s}
    fd = lib.call(P, HM + 'to_fraction_of_day', [hms]); jd = lib.call(P, G + 'to_julian', [gd.v])
    tot3 = near(lambda Z: (lambda xs: (sum(xs[1:], xs[0]), sum((zabs(x) for x in xs[1:]), zabs(xs[0]))))([Z.t(x).v for x in jd + [fd]]), f_op('fadd', f_op('fadd', *jd), fd))
    good = b_and(args, gd.ok)
    # julian
    (o1, j1), (o2, j2) = req('jd', 'f64'), opt('jd2', 'f64', 0.0)
    left = i_cmp('lt', 0, cli.n)
    jargs = all_(o1, o2, b_not(left))
    fj = lib.call(P, G + 'from_julian', [j1, j2]); jgd, fod = fj.v
    jh = lib.call(P, HM + 'from_fraction_of_day', [fod])
    jgood = all_(jargs, fj.ok, jh.ok)
    fin = [j1, j2, s, fod, fd, *jd]
    Zi = Z(domain={x.args[0]: (-10**15, 10**15) for x in fin if is_t(x) and x.op == 'var'} | {K('second', 'f64')[2].args[0]: (0, None), K('jd2', 'f64')[2].args[0]: (-10**15, 10**15), jh.v['second'].args[0]: (0, None)})
    hyps = []
    for x in [K('second', 'f64')[2], jh.v['second']]: hyps += [z3.Not(zb(Zi.t(x).nan)), Zi.t(x).v >= 0]
    for x in jd + [fd, j1, K('jd2', 'f64')[2], fod]: hyps += [z3.Not(zb(Zi.t(x).nan)), Zi.t(x).v >= -10**15, Zi.t(x).v <= 10**15]
    seconds = [s, K('second', 'f64')[2], jh.v['second']]
    gtext = [L('Gregorian date: ')] + c25.date(gd.v) + [L('\nTime: ')] + c25.hms(hms) + [L('\nJulian date: '), R(tot3, 0, 6), L('\nFraction of day: '), R(fd, 0, 6), L('\n')]
    jtext = [L('Julian date: '), R(total([j1, j2]), 18, 14), L('\nGregorian date: ')] + c25.date(jgd) + [L('\nFraction of day: '), R(fod, 0, None), L('\nTime: ')] + c25.hms(jh.v) + [L('\n')]
    cases = [('gregorian', b_and(isg, good), True, gtext), ('gregorian with a missing or bad option or an invalid date', b_and(isg, b_not(good)), False, []),
             ('julian', b_and(isj, jgood), True, jtext), ('julian with a missing or bad option or arguments left over', b_and(isj, b_not(jargs)), False, []),
             ('julian with a date the library refuses', b_and(isj, b_and(jargs, b_not(jgood))), False, None),
             ('another subcommand or none', b_not(b_or(isg, isj)), False, [])]
    c.z3_obls(Zi, ex, hyps); c.satisfiable(Zi, hyps + [zb(Zi.t(b_and(isg, good)))], 'an accepted gregorian command line'); c.satisfiable(Zi, hyps + [zb(Zi.t(b_and(isj, jgood)))], 'an accepted julian command line')
    behave(c, 'julian_tool', ok, tr, cases, Zi, hyps, seconds)
    unread(c, 'julian_tool', cli, {'year', 'month', 'day', 'hour', 'minute', 'second', 'jd', 'jd2'})

def unread(c, what, cli, keys):
    got = {k for k, _ in cli.keys}
    c.record('ensures %s reads no other option' % what, 'vc-generator', got == keys, 0, None if got == keys else 'options ' + ', '.join(sorted(got)))

def sun(c):
    main = 'sun_angle_tool::main'
    P, ex, F, lib, cli = tool(c, 'sun_angle_tool', main)
    fn = P.find(main); loop = Loop(ex, F, fn, SA + 'compute')
    ok, tr = ends(c, ex, F, fn)
    if loop.entry is None or len(loop.vars) != 1: raise Unsupported('loop of sun_angle_tool')
    def opt(k, ty, d): g, p, v = cli.option('--' + k, ty); return b_not(b_and(g, b_not(p))), ite(g, v, d)
    D = [('year', 'i32', 2007), ('month', 'i32', 4), ('day', 'i32', 5), ('hour', 'u8', 0), ('min', 'u8', 0), ('sec', 'f64', 0.0), ('lat', 'f64', 0.0), ('lon', 'f64', -120.0), ('height', 'f64', 0.0),
         ('delta0', 'f64', -600.0), ('delta1', 'f64', 600.0), ('delta_step', 'f64', 60.0)]
    V = {}; args = True
    for k, ty, dflt in D:
        o, V[k] = opt(k, ty, dflt); args = b_and(args, o)
    args = b_and(args, b_not(i_cmp('lt', 0, cli.n)))
    scan = var('scan', 'b')
    gd = lib.call(P, G + 'new', [V['year'], V['month'], V['day']])
    good = b_and(args, gd.ok)
    par = {'date': gd.v, 'time': {'hour': V['hour'], 'minute': V['min'], 'second': V['sec']}, 'position': {'height': V['height'], 'lat': V['lat'], 'lon': V['lon']}}
    order = P.types[P.find(SA + 'new')['body']['locals'][1]]; order = P.types[order['elem']] if 'elem' in order else order
    def same_order(ty, v):
        """fields in the order of the type, as the contract records them"""
        T = P.types[ty]
        return {n: same_order(t, v[n]) for n, t in zip(T['variants'][0]['fnames'], T['variants'][0]['fields'])} if isinstance(v, dict) else v
    pty = P.types[P.find(SA + 'new')['body']['locals'][1]]['elem']
    par = same_order(pty, par)
    calc = lib.call(P, SA + 'new', [par])
    (l, d), = loop.vars.items()
    # a report for any shift d, and the one for the first shift
    res = lib.call(P, SA + 'compute', [calc, d]); res0 = lib.call(P, SA + 'compute', [calc, V['delta0']])
    v, v0 = [{'parameters': par, 'result': x} for x in (res, res0)]
    dom = {}
    for k, x in named(res) + named(res0):
        if is_t(x) and x.sort == 'f': dom[x.args[0]] = DOM.get(k, (-10**15, 10**15))
    for k, ty, _ in D:
        if ty == 'f64': dom[k] = (0, None) if k == 'sec' else (-10**15, 10**15)
    dom[d.args[0]] = (-10**15, 10**15)
    Zi = Z(domain=dom); hyps = []
    for n, (lo, hi) in dom.items():
        x = Zi.t(var(n, 'f')); hyps += [z3.Not(zb(x.nan)), x.v >= rv(lo)] + ([x.v <= rv(hi)] if hi is not None else [])
    hyps.append(z3.Implies(zb(Zi.t(gd.ok)), spec.valid(*[Zi.t(gd.v[k]) for k in ('year', 'month', 'day')])))
    sec = [V['sec'], cli.option('--sec', 'f64')[2]]
    pick = lambda m: []
    c.z3_obls(Zi, ex, hyps)
    run, run0 = f_cmp('fle', d, V['delta1']), f_cmp('fle', V['delta0'], V['delta1'])
    for nm, x in (('an accepted command line with --scan', scan), ('an accepted command line without --scan', b_not(scan))):
        c.satisfiable(Zi, hyps + [zb(Zi.t(b_and(b_and(good, run), x)))], nm)
    gs, gn = b_and(good, scan), b_and(good, b_not(scan))
    # before the loop
    pc, t0, snap = loop.entry
    intro = [L('Will scan from '), R(V['delta0'], 13, 6, True), L('s to '), R(V['delta1'], 13, 6, True), L('s in steps of '), R(V['delta_step'], 13, 6), L('\n')]
    its = [('the loop starts at delta0', hyps + [zb(Zi.t(pc))], Zi.t(snap[l]).v == Zi.t(V['delta0']).v, pick)]
    behave(c, 'sun_angle_tool before the loop', True, t0, [('accepted, --scan', gs, True, intro), ('accepted, no --scan', gn, True, []), ('refused', b_not(good), False, 'never')], Zi, hyps + [zb(Zi.t(pc))], sec)
    # ends without the loop
    behave(c, 'sun_angle_tool ending before the loop', ok, tr, [('refused', b_not(good), False, []), ('no --scan: one report', b_and(gn, run0), True, report(v0)), ('no --scan, first shift beyond delta1', b_and(gn, b_not(run0)), True, []),
        ('--scan, first shift beyond delta1', b_and(gs, b_not(run0)), True, intro), ('--scan otherwise', b_and(gs, run0), True, 'never')], Zi, hyps + [z3.Not(zb(Zi.t(pc)))], sec, False)
    # one pass
    mk = [Loop.MARK]; entered = [zb(Zi.t(pc))]
    if len(loop.back) != 1: raise Unsupported('loop with %d ways back' % len(loop.back))
    bpc, bt, bv = loop.back[0]; back = zb(Zi.t(bpc))
    behave(c, 'a pass of sun_angle_tool', bpc, bt, [('--scan: an empty line, a report, and goes on', b_and(gs, run), True, mk + [L('\n')] + report(v)), ('otherwise does not go on', b_not(b_and(gs, run)), False, None)], Zi, hyps + entered, sec)
    behave(c, 'sun_angle_tool at the end', ok, tr, [('a shift beyond delta1: stops', b_and(good, b_not(run)), True, mk), ('no --scan: one report, then stops', b_and(gn, run), True, mk + report(v)),
        ('--scan otherwise', b_and(gs, run), True, 'never'), ('refused', b_not(good), False, 'never')], Zi, hyps + entered + [z3.Not(back)], sec, True)
    nd = f_op('fadd', d, V['delta_step'])
    if bv[l] is nd: c.record('a pass adds delta_step to the shift', 'term identity', True)
    else: its.append(('a pass adds delta_step to the shift', hyps + [zb(Zi.t(bpc))], Zi.t(bv[l]).v == Zi.t(nd).v, pick))
    c.z3(Zi, its)
    unread(c, 'sun_angle_tool', cli, {k for k, _, _ in D})

# ------------------------------------------------------------ the compiled tools
class ToolReplay:
    """replay of the library and of the compiled tools: a case ('tool', [name, argument...]) answers [status, standard output, library values...]"""
    def __init__(self, lib, path): self.lib = lib; self.path = path; self.n = 0
    def __call__(self, cases):
        cases = list(cases); idx = [i for i, cs in enumerate(cases) if cs[0] != 'tool']; out = [None] * len(cases)
        for i, o in zip(idx, self.lib([cases[i] for i in idx])): out[i] = o
        need = []; 
        for i, cs in enumerate(cases):
            if cs[0] != 'tool': continue
            try: p = subprocess.run([os.path.join(self.path, cs[1][0])] + [str(a) for a in cs[1][1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
            except subprocess.TimeoutExpired: out[i] = ('hang',); continue
            st = p.returncode if b'panicked' not in p.stderr else 101
            out[i] = ('ok', [st, p.stdout.decode('utf-8', 'replace')])
            for q in asks(cs[1]): need.append((i, q))
        for (i, q), o in zip(need, self.lib([q for _, q in need])): out[i][1].append(o)
        # a fraction of day from the library is converted by the library
        need = [(i, ('hms_from', [out[i][1][2][1][3]])) for i, cs in enumerate(cases) if cs[0] == 'tool' and out[i][0] == 'ok' and cs[1][1:2] and cs[1][1] in ('j', 'julian') and len(out[i][1]) > 2 and out[i][1][2][0] == 'ok']
        for (i, q), o in zip(need, self.lib([q for _, q in need])): out[i][1].append(o)
        self.n += len(cases)
        return out

def parse(argv, types, dflt, flags=()):
    """-> values or None when the arguments are refused"""
    vals = dict(dflt); rest = list(argv); on = set()
    for k, ty in types.items():
        if '--' + k in rest:
            i = rest.index('--' + k)
            if i + 1 >= len(rest): return None
            w = rest[i + 1]; rest[i:i + 2] = []
            try:
                if ty == 'f64':
                    if not re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', w): return None
                    vals[k] = float(w)
                else:
                    if not re.fullmatch(r'[+-]?\d+' if ty[0] == 'i' else r'\+?\d+', w): return None
                    vals[k] = int(w); lo, hi = rng(int(ty[1:]), ty[0] == 'i')
                    if not lo <= vals[k] <= hi: return None
            except ValueError: return None
        elif k not in vals: return None
    for f in flags:
        if '--' + f in rest: rest.remove('--' + f); on.add(f)
    return vals, rest, on

GT = {'year': 'i32', 'month': 'i32', 'day': 'i32', 'hour': 'u8', 'minute': 'u8', 'second': 'f64'}
JT = {'jd': 'f64', 'jd2': 'f64'}
ST = {'year': 'i32', 'month': 'i32', 'day': 'i32', 'hour': 'u8', 'min': 'u8', 'sec': 'f64', 'lat': 'f64', 'lon': 'f64', 'height': 'f64', 'delta0': 'f64', 'delta1': 'f64', 'delta_step': 'f64'}
SD = {'year': 2007, 'month': 4, 'day': 5, 'hour': 0, 'min': 0, 'sec': 0.0, 'lat': 0.0, 'lon': -120.0, 'height': 0.0, 'delta0': -600.0, 'delta1': 600.0, 'delta_step': 60.0}
def request(a):
    """-> (tool, values, shifts) or None when refused"""
    a = [str(x) for x in a]
    if a[0] == 'julian_tool':
        if len(a) < 2: return None
        if a[1] in ('g', 'gregorian'):
            r = parse(a[2:], GT, {'hour': 12, 'minute': 0, 'second': 0.0})
            return r and ('g', r[0], None)
        if a[1] in ('j', 'julian'):
            r = parse(a[2:], JT, {'jd2': 0.0})
            return None if not r or r[1] else ('j', r[0], None)
        return None
    r = parse(a[1:], ST, SD, ['scan'])
    if not r or r[1]: return None
    v = r[0]; x = v['delta0']; ds = []
    while x <= v['delta1'] and len(ds) < 100:
        ds.append(x)
        if 'scan' not in r[2]: break
        x += v['delta_step']
    return ('s' if 'scan' in r[2] else 'o', v, ds)
def asks(a):
    q = request(a)
    if q is None: return []
    k, v, ds = q
    if k == 'g': return [('date_new', [v['year'], v['month'], v['day']]), ('to_julian', [v['year'], v['month'], v['day']]), ('hms_to', [v['hour'], v['minute'], v['second']])]
    if k == 'j': return [('from_julian', [v['jd'], v['jd2']])]
    return [('date_new', [v['year'], v['month'], v['day']])] + [('sun_report', [v['year'], v['month'], v['day'], v['hour'], v['min'], v['sec'], v['lon'], v['lat'], v['height'], x]) for x in ds]

def txt_date(y, m, d): return '%04d-%02d-%02d' % (y, m, d)
def txt_time(h, m, s): return '%02d:%02d:%09.6f' % (h, m, s)
def close(got, want, tol):
    """texts equal except that the floating-point tokens of want may differ by tol(|x|)"""
    return got == want
def txt_report(a, r):
    y, m, d, h, mi, s, lon, lat, hgt = a[:9]
    jd0, jd1, ds, px, py, pz, u0, u1, dat, a0, a1, t0, t1, v0, v1, era, ex, ey, ez, sx, sy, sz, sza = r
    DEG = math.pi / 180
    return ('Date:                %s\nTime:                %s %+13.6fs\nJulian date:         %.6f = %.6f + %.6f\nPosition:            %+010.6f,%+011.6f,%+09.2f\n'
            '                     X=%16.1f Y=%16.1f Z=%16.1f\nUTC:                 %.6f\nDelta AT:            %.6f\nTAI:                 %.6f\nTT:                  %.6f\nUT1:                 %.6f\n'
            'ERA:                 %.6f°\nEarth position (AU): X=%+15.13f Y=%+15.13f Z=%+15.13f\nSun position (m):    X=%+16.0f Y=%+16.0f Z=%+16.0f\n'
            'Sun Zenith angle:    %7.2f° or elevation: %7.2f°\n') % (txt_date(y, m, d), txt_time(h, mi, s), ds, jd0 + jd1, jd0, jd1, lat, lon, hgt, px, py, pz, u0 + u1, dat, a0 + a1, t0 + t1, v0 + v1,
            era / DEG, ex, ey, ez, sx, sy, sz, sza / DEG, 90.0 - sza / DEG)
NUM = re.compile(r'[+-]?\d+\.\d+')
def differs(got, want):
    """texts may differ in the last decimal of a number (a derived value may round the other way)"""
    if got == want: return False
    if NUM.sub('#', got) != NUM.sub('#', want) or len(got) != len(want): return True
    for a, b in zip(NUM.findall(got), NUM.findall(want)):
        if a != b and abs(Q(a) - Q(b)) > Q(1, 10**len(b.split('.')[1])) + abs(Q(b)) / 2**50: return True
    return False

def texts(rng):
    y = rng.choice([rng.randint(1900, 2100), rng.randint(-4799, 9999), rng.randint(-100, 100)]); m = rng.randint(1, 12); d = rng.randint(1, spec.pmlen(y, m))
    u = lambda k: rng.choice([rng.uniform(-k, k), rng.uniform(-1, 1), float(rng.randint(-100, 100)), 0.0])
    return [y, m, d, rng.randint(0, 23), rng.randint(0, 59), c25.sec(rng), c25.num(rng, 6), c25.num(rng, 6), c25.num(rng, 2),
            rng.uniform(2e6, 3e6), rng.uniform(-1, 1), u(1e6)] + [u(1e7) for _ in range(3)] + [2400000.5, u(1e5), u(40), 2400000.5, u(1e5), 2400000.5, u(1e5), 2400000.5, u(1e5), rng.uniform(0, 6.3)] + [u(1.2) for _ in range(3)] + [u(1.5e11) for _ in range(3)] + [rng.uniform(0, 3.15)]

def num_arg(rng, x): return rng.choice(['%r', '%.3f', '%g']) % x
def cases(rng, n, k):
    out = []
    if k == 0: out = [('sun_default', []), ('tool', ['sun_angle_tool']), ('tool', ['julian_tool'])]
    for i in range(n):
        q = rng.random()
        if q < 0.4: out.append(('sun_text', texts(rng))); continue
        y = rng.choice([rng.randint(1972, 2100), rng.randint(1900, 2200), rng.randint(-4900, 9999)]); m = rng.choice([rng.randint(1, 12)] * 9 + [rng.randint(-1, 14)]); d = rng.choice([rng.randint(1, 28)] * 8 + [rng.randint(0, 32)])
        if q < 0.6:
            a = ['--year', y, '--month', m, '--day', d]
            if rng.random() < 0.5: a += ['--hour', rng.randint(0, 255)]
            if rng.random() < 0.5: a += ['--minute', rng.randint(0, 255)]
            if rng.random() < 0.5: a += ['--second', num_arg(rng, c25.sec(rng))]
            if rng.random() < 0.15: j = 2 * rng.randrange(len(a) // 2); del a[j:j + 2]
            if rng.random() < 0.05: a += ['--hour', 'x']
            out.append(('tool', ['julian_tool', rng.choice(['g', 'gregorian', 'g', 'gregorian', 'greg'])] + a))
        elif q < 0.8:
            a = ['--jd', num_arg(rng, rng.choice([rng.uniform(2.4e6, 2.5e6), rng.uniform(-1e5, 1e7), float(rng.randint(2400000, 2500000))]))]
            if rng.random() < 0.6: a += ['--jd2', num_arg(rng, rng.choice([rng.uniform(-1, 1), rng.uniform(-1e5, 1e5), 0.5]))]
            if rng.random() < 0.1: a += [rng.choice(['extra', '--hour', '--jd3'])]
            if rng.random() < 0.1: a = a[2:]
            out.append(('tool', ['julian_tool', rng.choice(['j', 'julian', 'j', 'julian', 'jul'])] + [x for x in a]))
        else:
            a = ['sun_angle_tool']
            if rng.random() < 0.7: a += ['--year', y, '--month', min(12, max(1, m)), '--day', d]
            for key, f in (('hour', lambda: rng.randint(0, 23)), ('min', lambda: rng.randint(0, 59)), ('sec', lambda: num_arg(rng, rng.uniform(0, 59.99))), ('lat', lambda: num_arg(rng, rng.uniform(-90, 90))), ('lon', lambda: num_arg(rng, rng.uniform(-360, 360))),
                           ('height', lambda: num_arg(rng, rng.uniform(-100, 9000))), ('delta0', lambda: num_arg(rng, rng.uniform(-1000, 100)))):
                if rng.random() < 0.4: a += ['--' + key, f()]
            if rng.random() < 0.3: a += ['--delta1', num_arg(rng, rng.uniform(-500, 900)), '--delta_step', num_arg(rng, rng.uniform(100, 400))]
            if rng.random() < 0.3: a += ['--scan']
            if rng.random() < 0.05: a += ['left']
            if rng.random() < 0.05: a += ['--year']
            out.append(('tool', a))
    return out

def judge(case, out):
    cmd, a = case
    if cmd == 'sun_default':
        w = [2007, 4, 5, 0, 0, 0.0, -120.0, 0.0, 0.0]
        return None if out[0] == 'ok' and out[1] == w else 'default parameters are not 2007-04-05 00:00 at 0 N 120 W'
    if out[0] != 'ok': return 'expected an answer'
    if cmd in ('sun_text', 'sun_report'):
        w = txt_report(a[:9], a[9:] if cmd == 'sun_text' else out[1][1:])
        return 'prints %r instead of %r' % (out[1][0], w) if differs(out[1][0], w) else None
    st, s = out[1][:2]; r = request(a); lib = out[1][2:]
    if st == 101: return 'panics'
    if r is None: return None if st != 0 and not s else 'refused arguments: status %d, printed %r' % (st, s)
    k, v, ds = r
    if k == 'g':
        nw, j, f = lib
        if nw[0] != 'ok': return None if st != 0 and not s else 'invalid date: status %d, printed %r' % (st, s)
        w = 'Gregorian date: %s\nTime: %s\nJulian date: %.6f\nFraction of day: %.6f\n' % (txt_date(v['year'], v['month'], v['day']), txt_time(v['hour'], v['minute'], v['second']), j[1][0] + j[1][1] + f[1][0], f[1][0])
    elif k == 'j':
        if lib[0][0] != 'ok' or lib[1][0] != 'ok': return None if st != 0 else 'a date the library refuses: status 0'
        w = 'Julian date: %18.14f\nGregorian date: %s\nFraction of day: %s\nTime: %s\n' % (v['jd'] + v['jd2'], txt_date(*lib[0][1][:3]), fmt.render_one('float', lib[0][1][3], fmt.DEFAULT), txt_time(*lib[1][1]))
    else:
        if lib[0][0] != 'ok': return None if st != 0 and not s else 'invalid date: status %d, printed %r' % (st, s)
        w = 'Will scan from %+13.6fs to %+13.6fs in steps of %13.6f\n' % (v['delta0'], v['delta1'], v['delta_step']) if k == 's' else ''
        for o in lib[1:]: w += ('\n' if k == 's' else '') + (o[1][0] if o[0] == 'ok' else '?')
    if st != 0: return 'accepted arguments end with status %d' % st
    if differs(s, w): return 'prints %r instead of %r' % (s, w)
