"""Bias, precession and nutation follow the IAU 2000B expressions."""
from .iau import *
TRUSTED = [LIBMT, 'spec/nut00b.json is the published IAU 2000B series']
BATCH = 60; MAXBATCH = 400; SAMPLE = 4
F = 'tofas::frames::'
TOL = {'nutation': 1e-13, 'precession_rate': 1e-15, 'mean_obliquity': 1e-13, 'bias_and_precession': 1e-13, 'precession_nutation': 1e-13}
SPECS = {'nutation': nutation, 'precession_rate': precession_rate, 'mean_obliquity': mean_obliquity, 'bias_and_precession': bias_and_precession, 'precession_nutation': precession_nutation}

def flat(v): return [z for q in v for z in flat(q)] if isinstance(v, (list, tuple)) else [v]
def pc(c, ex, what):
    c.record('no panic reachable in ' + what, 'vc-generator', not ex.obls, 0, [o.where for o in ex.obls][:3] or None)

def prove(c):
    a, b = var('a', 'f'), var('b', 'f')
    code = {}
    for n in SPECS:
        r, ex = c.run(F + n, [[a, b]]); pc(c, ex, n); code[n] = leaves(r)
    r, ex = c.run('<tofas::frames::PrecessionNutation as std::convert::From<tofas::time::TT>>::from', [[a, b]]); pc(c, ex, 'PrecessionNutation::from')
    for name, first in SPLIT3:
        I = Ideal(); T = domain(I, first, 2, CENT); A = PolyAlg(I); t = {(T,): Q(1)}
        for n in SPECS:
            want = flat(SPECS[n](A, t)); got = I.eval(code[n])
            if len(want) != len(got): raise Unsupported('%s returns %d numbers' % (n, len(got)))
            for i, (g, w) in enumerate(zip(got, want)):
                c.ideal('ensures %s component %d = IAU 2000B expression [%s]' % (n, i, name), I, g, w, TOL[n])
        # the nutation in longitude exposed by PrecessionNutation
        c.ideal('ensures PrecessionNutation.dpsi = IAU 2000B nutation in longitude [%s]' % name, I, I.eval([r['dpsi']])[0], nutation(A, t)[0], 1e-13)
    r, ex = c.run(F + 'frame_bias'); pc(c, ex, 'frame_bias')
    I = Ideal(); A = PolyAlg(I)
    for i, g in enumerate(I.eval(leaves(r))): c.ideal('ensures frame bias component %d' % i, I, g, A.c(BIAS[i]), 1e-20)
    # nutation matrix for arbitrary angles
    vs = [var(n, 'f') for n in ('eps', 'dpsi', 'deps')]
    r, ex = c.run(F + 'nutation_matrix', *vs); pc(c, ex, 'nutation_matrix')
    I = Ideal(); A = PolyAlg(I); ps = []
    for v in vs:
        s = I.sym(v.args[0], -100, 100); I.input(v.args[0], {(s,): Q(1)}, -100, 100); ps.append({(s,): Q(1)})
    want = flat(nutation_matrix(A, *ps))
    for i, g in enumerate(I.eval(leaves(r))): c.ideal('ensures nutation matrix entry %d = R1(-(eps+deps)) R3(-dpsi) R1(eps), angles within 100 rad' % i, I, g, want[i], 1e-13)

def cases(rng, n, k):
    out = []
    for _ in range(n):
        x = rng.uniform(-73000, 73000)
        q = rng.randint(0, 3)
        if q == 0: a, b = 2451545.0, x
        elif q == 1: a, b = 2400000.5, x + 51544.5
        elif q == 2: a = rng.uniform(-5e5, 3e6); b = 2451545 + x - a
        else: a, b = round(x) + 2451544.5, rng.random()
        if rng.random() < .1:
            out.append(('nutation_matrix', [rng.uniform(-7, 7), rng.uniform(-7, 7) * rng.choice([1, 1e-5]), rng.uniform(-7, 7) * rng.choice([1, 1e-5])]))
        else: out.append((rng.choice(list(SPECS) + ['pn_dpsi']), [a, b]))
    out.append(('frame_bias', []))
    return out

def judge(case, out):
    n, args = case
    if out[0] != 'ok': return 'expected a value'
    A = MpAlg()
    if n == 'frame_bias': want, tol = [A.c(x) for x in BIAS], 1e-20
    elif n == 'nutation_matrix': want, tol = flat(nutation_matrix(A, *[A.c(Q(x)) for x in args])), 1e-13
    elif n == 'pn_dpsi': want, tol = [nutation(A, tof(A, *args))[0]], 1e-13
    else: want, tol = flat(SPECS[n](A, tof(A, *args))), TOL[n]
    for i, (g, w) in enumerate(zip(out[1], want)):
        if not (abs(A.mp.mpf(g) - w) <= tol): return '%s component %d differs from the IAU expression by %s' % (n, i, A.mp.nstr(A.mp.mpf(g) - w, 4))
