"""Celestial, intermediate and terrestrial frames compose by the CIO method."""
import mpmath
from .rot import *
TRUSTED = [LIBMT, 'libm atan and atan2 are within 2^-52 and 2^-51 of the exact value']
TOL = 1e-13
DISC = Q('0.999')
CIO_FN = 'tofas::locator::cio'

def ps(E, i, k=1): return {(i,): Q(k)}
def rotm(k, S, C):
    R = [[{}] * 3 for _ in range(3)]; p, q = (k + 1) % 3, (k + 2) % 3
    R[k][k] = pconst(1); R[p][p] = C; R[q][q] = C; R[p][q] = S; R[q][p] = pscale(S, -1)
    return R
def mm(E, A, B):
    out = [[{} for _ in range(3)] for _ in range(3)]
    for i in range(3):
        for j in range(3):
            for k in range(3): padd_in(out[i][j], pmul(A[i][k], B[k][j]))
            out[i][j] = E.nf(out[i][j])
    return out
def neg(sc): return pscale(sc[0], -1), sc[1]

def entries(c, what, E, got, want, tol=TOL):
    """nine obligations, each entry against its polynomial"""
    got = leaves(got)
    try: shallow(E, got); err = None
    except Unsupported as e: err = str(e)
    for i in range(3):
        for j in range(3):
            c.exact('ensures %s entry [%d][%d]' % (what, i, j), E, lambda: E.val(got[3*i+j]), want[i][j], {(): tol})

def zero_subst(E, cond, truth):
    """a branch condition that forces a quantity to be zero -> the term"""
    if cond.op == 'not': return zero_subst(E, cond.args[0], not truth)
    if cond.op == 'feq' and truth:
        for a, b in (cond.args, cond.args[::-1]):
            if is_t(a) and b == 0: return a
    if not truth and cond.op == 'flt' and cond.args[0] == 0 and is_t(cond.args[1]): return cond.args[1]
    if truth and cond.op == 'fle' and cond.args[1] == 0 and is_t(cond.args[0]): return cond.args[0]
    return None

def nonneg(t):
    """a double that is not negative whatever the (finite, bounded) inputs"""
    if not is_t(t): return t >= 0
    if t.op in ('fabs', 'fsqrt'): return True
    if t.op == 'fmul' and t.args[0] is t.args[1]: return True
    return t.op in ('fadd', 'fmul', 'fdiv') and all(map(nonneg, t.args))
def impossible(cond, truth):
    """the branch needs a quantity that is never negative to be so"""
    if cond.op == 'not': return impossible(cond.args[0], not truth)
    l, r = (cond.args + (None, None))[:2] if cond.op in ('flt', 'fle') else (None, None)
    if cond.op == 'flt' and truth: return not is_t(r) and r <= 0 and nonneg(l)
    if cond.op == 'fle' and not truth: return not is_t(l) and l <= 0 and nonneg(r)
    return False

def prove(c):
    a, b, u1, u2, xp, yp, sp, era = (var(n, 'f') for n in ('a', 'b', 'u1', 'u2', 'xp', 'yp', 'sp', 'era'))
    x, y, s = (var(n, 'f') for n in 'xys')
    M = [[var('m%d%d' % (i, j), 'f') for j in range(3)] for i in range(3)]
    N = [[var('n%d%d' % (i, j), 'f') for j in range(3)] for i in range(3)]
    # ---- polar motion
    r, ex = c.run(POM, xp, yp, sp); no_panic(c, 'polar_motion_matrix', ex)
    E = Exact(); R = {}
    for n in ('xp', 'yp', 'sp'):
        i, si, ci = E.angle(n); E.input(n, -1e300, 1e300, poly=ps(E, i)); R[n] = ps(E, si), ps(E, ci)
    entries(c, 'polar_motion_matrix = R1(-yp) R2(-xp) R3(sp)', E, r, mm(E, mm(E, rotm(0, *neg(R['yp'])), rotm(1, *neg(R['xp']))), rotm(2, *R['sp'])))
    # ---- composition from components
    r, ex = c.run(F + 'celestial_to_terrestrial_from_cio_components', M, era, N); no_panic(c, 'celestial_to_terrestrial_from_cio_components', ex)
    E = Exact(); i, si, ci = E.angle('era'); E.input('era', -1e300, 1e300, poly=ps(E, i))
    A = [[E.input(v.args[0], -1.1, 1.1) for v in q] for q in M]; B = [[E.input(v.args[0], -1.1, 1.1) for v in q] for q in N]
    entries(c, 'celestial_to_terrestrial_from_cio_components(C, era, P) = P R3(era) C', E, r, mm(E, mm(E, B, rotm(2, ps(E, si), ps(E, ci))), A))
    # ---- celestial to intermediate from pole and locator
    r, ex = c.run(XYS, x, y, s); no_panic(c, 'celestial_to_intermediate_from_xys', ex)
    flat = leaves(r)
    conds = [t for t in subterms(flat) if t.op == 'ite']
    conds = list({t.args[0].id: t.args[0] for t in conds}.values())
    if len(conds) > 3: raise Unsupported('too many branches in celestial_to_intermediate_from_xys')
    smax = float(DISC) ** 0.5 * (1 + 1e-12); cmin = (1 - float(DISC)) ** 0.5 * (1 - 1e-9)
    for tv in itertools.product((True, False), repeat=len(conds)):
        E = Exact()
        e_, se, ce = E.angle('E', -3.2, 3.2)
        d_, sd, cd = E.angle('d', 0, 1.6, sin=(0, smax), cos=(cmin, 1), scale=True)
        s_, ss, cs = E.angle('s', -10, 10)
        K = E.sym('1/cos d', 1, 1 / cmin * (1 + 1e-9), scale=True); T = E.sym('tan d', 0, smax / cmin * (1 + 1e-9), scale=True)
        pre = [((sd, K), {(T,): Q(1)}), ((K, cd), pconst(1)), ((T, cd), {(sd,): Q(1)})]
        E.rules = [(tuple(sorted(l)), q) for l, q in pre] + E.rules
        E.arule((sd, K), (T,), 1.0); E.arule((K, cd), (), 1.0); E.arule((T, cd), (sd,), 1.0)
        X, Y = {tuple(sorted((sd, ce))): Q(1)}, {tuple(sorted((sd, se))): Q(1)}
        E.input('x', -1, 1, poly=X); E.input('y', -1, 1, poly=Y); E.input('s', -10, 10, poly=ps(E, s_))
        E.invs.append((padd(pconst(1), {(sd, sd): Q(1)}, -1), {(K, K): Q(1)}))
        E.invs.append(({(cd,): Q(1)}, {(K,): Q(1)}))
        E.roots += [({(T,): Q(1)}, 0.0), ({(sd,): Q(1)}, 0.0), ({(cd,): Q(1)}, cmin)]
        E.atans.append(({(T,): Q(1)}, ps(E, d_), {(cd, cd): 1.0}))
        E.atan2s += [(ps(E, se), ps(E, ce), ps(E, e_)), (ps(E, sd), ps(E, cd), ps(E, d_))]
        case = ''; todo = flat; zero = []; poss = True
        for q, v in zip(conds, tv):
            case += ' [%s%s]' % ('' if v else 'not ', show(q, 2)); E.facts[q.id] = v
            z = zero_subst(E, q, v)
            if z is not None: zero.append(z)
        if any(impossible(q, v) for q, v in zip(conds, tv)): continue
        S, C = ps(E, se), ps(E, ce)
        want = mm(E, mm(E, rotm(2, *neg(neg_sum(E, s_, e_))), rotm(1, ps(E, sd), ps(E, cd))), rotm(2, S, C))
        if zero:
            # a quantity is zero: x and y vanish (up to underflow), so the pole is the z-axis and E is arbitrary
            ok = pole_zero(E, zero)
            c.record('requires of the branch%s: the pole is at the z-axis within 1e-153' % case, BE_EXACT, ok, 0, None if ok else 'the branch does not force x and y to be zero')
            todo = subst(flat, {z.id: 0.0 for z in zero})
            # then R3(-(E+s)) R2(0) R3(E) = R3(-s), bottom row (x, y, 1) with |x|, |y| < 1e-153
            want = rotm(2, ps(E, ss, -1), ps(E, cs))
        entries(c, 'celestial_to_intermediate_from_xys = R3(-(E+s)) R2(d) R3(E), bottom row (x, y, sqrt(1-x^2-y^2)), x^2+y^2 <= 0.999, |s| <= 10' + case, E, todo, want)
        if not zero:
            for j, q in enumerate((X, Y, {(cd,): Q(1)})): c.record('lemma: bottom row [%d] of R3(-(E+s)) R2(d) R3(E)' % j, BE_EXACT, E.zero(padd(want[2][j], q, -1)))
    # ---- date-driven versions are compositions of the public functions
    def composed(what, got, want):
        got, want = leaves(got), leaves(want)
        for i, (g, w) in enumerate(zip(got, want)):
            if same(g, w): c.record('ensures %s component %d' % (what, i), 'vc-generator (term identity)', True); continue
            E = Exact(opaque_trig=True)
            def val():
                return shallow(E, [g])[0]
            try: spec = shallow(E, [w])[0]
            except Unsupported as e: c.record('ensures %s component %d' % (what, i), BE_EXACT, False, 0, 'not the same term, and %s' % e); continue
            c.exact('ensures %s component %d' % (what, i), E, val, spec.p, {(): 1e-11})
    tt, ut = [[a, b]], [[u1, u2]]
    def pub(name, *args): return call(Exec(c.prog()), name, *args)
    def np(name, *args):
        r, ex = c.run(name, *args); no_panic(c, name.split('::')[-1], ex); return r
    composed('xy_from_bpn = bottom row of the matrix', np(F + 'xy_from_bpn', M), [M[2][0], M[2][1]])
    composed('celestial_to_intermediate_with_bpn_and_xy(tt,x,y) = from_xys(x, y, cio(tt,x,y))', np(F + 'celestial_to_intermediate_with_bpn_and_xy', tt, x, y), pub(XYS, x, y, pub(CIO_FN, tt, x, y)))
    composed('celestial_to_intermediate_with_bpn(tt,M) = from_xys(M20, M21, cio(tt,M20,M21))', np(F + 'celestial_to_intermediate_with_bpn', tt, M), pub(XYS, M[2][0], M[2][1], pub(CIO_FN, tt, M[2][0], M[2][1])))
    pn = pub(F + 'precession_nutation', tt)
    c2i = pub(XYS, pn[2][0], pn[2][1], pub(CIO_FN, tt, pn[2][0], pn[2][1]))
    composed('celestial_to_intermediate(tt) = from_xys of the precession-nutation pole and the locator of tt', np(F + 'celestial_to_intermediate', tt), c2i)
    composed("celestial_to_terrestrial(tt,ut1,xp,yp) = polar_motion(xp,yp,0) R3(era(ut1)) celestial_to_intermediate(tt)", np(F + 'celestial_to_terrestrial', tt, ut, xp, yp),
             pub(F + 'celestial_to_terrestrial_from_cio_components', c2i, pub('tofas::earth::rotation_angle', ut), pub(POM, xp, yp, 0.0)))

def neg_sum(E, a, b):
    """sine and cosine of the sum of two angle symbols"""
    return E.sincos({(a,): Q(1), (b,): Q(1)})
def pole_zero(E, zero):
    """the vanishing quantities force |x|,|y| < 1e-153: x^2+y^2 computed as zero, or x and y themselves"""
    names = set()
    for z in zero:
        if z.op == 'var': names.add(z.args[0])
        else:
            try: v = shallow(E, [z])[0]
            except Unsupported: return False
            sd = E.byname['sin d']
            if v.lo >= 0 and (v.p == {(sd, sd): Q(1)} or v.p == {(sd,): Q(1)}): names |= {'x', 'y'}
    return {'x', 'y'} <= names

# ------------------------------------------------------------------ replay
from .c12 import date, ang
def disc(rng):
    q = rng.randint(0, 6)
    if q == 0: return rng.choice([[0.0, 0.0], [1e-200, -1e-200], [1e-170, 0.0], [0.0, -1e-30]])
    r = math.sqrt(rng.random() * .998) if q < 4 else 10.0**rng.uniform(-14, -.01) if q < 6 else rng.choice([1e-8, 1e-3, 1e-30, .1])
    t = rng.choice([rng.uniform(-4, 4), rng.randint(-4, 4) * math.pi / 4])
    return [r * math.cos(t), r * math.sin(t)]
def cases(rng, n, k):
    out = []
    for _ in range(n):
        o = rng.choice(['pom', 'c2t_cio', 'c2i_xys', 'c2i_xys', 'xy_bpn', 'c2i_chain', 'c2i_xy_chain', 'c2i_bpn_chain', 'c2t_chain'])
        m = lambda: [rng.uniform(-1, 1) for _ in range(9)]
        g = lambda: rng.choice([0.0, rng.uniform(-7, 7), rng.uniform(-1, 1) * 1e-6])
        out.append((o, {'pom': lambda: [g(), g(), g()], 'c2t_cio': lambda: m() + [g()] + m(), 'c2i_xys': lambda: disc(rng) + [g()], 'xy_bpn': m, 'c2i_chain': lambda: date(rng),
                        'c2i_xy_chain': lambda: date(rng) + [rng.uniform(-.1, .1), rng.uniform(-.1, .1)], 'c2i_bpn_chain': lambda: date(rng) + [z * .1 for z in m()], 'c2t_chain': lambda: date(rng) + date(rng) + [g(), g()]}[o]()))
    return out
def judge(case, out):
    o, a = case
    if out[0] != 'ok': return 'expected a value'
    g = out[1]
    if any(not math.isfinite(z) for z in g): return 'not finite'
    if o.endswith('_chain'):          # two results of the real code: the function and the composition of public functions
        h = len(g) // 2
        for i in range(h):
            if not abs(g[i] - g[h + i]) <= 1e-11: return 'component %d differs from the composition by %.3g' % (i, g[i] - g[h + i])
        return
    mp = mpmath.mp.clone(); mp.dps = 50
    f = [mp.mpf(z) for z in a]
    def R(k, t):
        M = mp.matrix(3); p, q = (k + 1) % 3, (k + 2) % 3
        M[k, k] = 1; M[p, p] = M[q, q] = mp.cos(t); M[p, q] = mp.sin(t); M[q, p] = -mp.sin(t); return M
    if o == 'xy_bpn': return None if g == [a[6], a[7]] else 'not the bottom row'
    if o == 'pom': w = R(0, -f[1]) * R(1, -f[0]) * R(2, f[2])
    elif o == 'c2t_cio': w = mp.matrix(3, 3); C = mp.matrix([f[0:3], f[3:6], f[6:9]]); P = mp.matrix([f[10:13], f[13:16], f[16:19]]); w = P * R(2, f[9]) * C
    else:
        r = mp.sqrt(f[0]**2 + f[1]**2); e = mp.atan2(f[1], f[0]) if r else mp.mpf(0)
        w = R(2, -(e + f[2])) * R(1, mp.asin(r)) * R(2, e)
    for i in range(3):
        for j in range(3):
            if not abs(g[3*i+j] - w[i, j]) <= TOL: return 'entry [%d][%d] off by %s' % (i, j, mp.nstr(g[3*i+j] - w[i, j], 4))
