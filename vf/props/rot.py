"""Shared by C12 and C13: matrices as polynomials over the sines and cosines of the angles
the code passes to sin and cos, whatever these angles are."""
import itertools
from ..core import *
from ..exact import *
from ..exact import sub_mono
from ..ideal import Ideal
F = 'tofas::frames::'
POM = 'tofas::earth::polar_motion_matrix'
ROT = '<[[f64; 3]; 3] as tofas::common::Matrix>::rotation'
XYS = F + 'celestial_to_intermediate_from_xys'
LIBMT = 'libm sin and cos are within 2^-52 of the exact value and in [-1,1] for every finite argument; atan, atan2 are finite'

def shallow(E, roots):
    """evaluate the terms above the sines and cosines"""
    for root in roots:
        st = [root]
        while st:
            x = st[-1]
            if not is_t(x) or x.id in E.memo: st.pop(); continue
            if x.op in ('fsin', 'fcos') and E.opaque_trig: E.memo[x.id] = E.node(x); st.pop(); continue
            todo = [y for y in x.args if is_t(y) and y.sort == 'f' and y.id not in E.memo]
            if todo: st += todo; continue
            E.memo[x.id] = E.node(x); st.pop()
    return [E.val(r) for r in roots]

def conditions(roots):
    """branch conditions of float terms above the sines and cosines"""
    seen = set(); out = []; st = [r for r in roots if is_t(r)]
    while st:
        x = st.pop()
        if x.id in seen or x.op in ('fsin', 'fcos'): continue
        seen.add(x.id)
        if x.op == 'ite' and x.args[0] not in out: out.append(x.args[0])
        st += [a for a in x.args if is_t(a) and a.sort == 'f']
    return out

def transpose(R): return [list(r) for r in zip(*R)]
def ddet(E, R):
    """sign of the determinant: +-1 by orthogonality, constant on the connected set of all angles; value at angle zero"""
    def at0(p): return sum(c for m, c in p.items() if all(E.syms[i][0][0] == 'c' for i in m))
    a = [[at0(p) for p in r] for r in R]
    return sum(a[0][i] * (a[1][(i+1) % 3] * a[2][(i+2) % 3] - a[1][(i+2) % 3] * a[2][(i+1) % 3]) for i in range(3))

def rotation(c, what, r, tol):
    """obligations: the 3x3 matrix r of terms is a proper rotation up to rounding for every value of its angles.
    -> the angle terms that must be finite"""
    flat = leaves(r)
    conds = conditions(flat)
    if len(conds) > 4: raise Unsupported('too many branches in ' + what)
    angles = {}
    for tv in itertools.product((True, False), repeat=len(conds)):
        E = Exact(opaque_trig=True)
        for q, v in zip(conds, tv): E.facts[q.id] = v
        case = ''.join(' [%s%s]' % ('' if v else 'not ', show(q, 2)) for q, v in zip(conds, tv))
        t = time.time()
        try: vs = shallow(E, flat)
        except Unsupported as e:
            c.record('ensures %s is a product of rotations%s' % (what, case), BE_EXACT, False, time.time() - t, str(e)); continue
        R = [[v.p for v in vs[3*i:3*i+3]] for i in range(3)]
        err = max(E.num(v.e) for v in vs)
        for i in range(3):
            for j in range(i, 3):
                s = {}
                for k in range(3): padd_in(s, pmul(R[i][k], R[j][k]))
                d = E.nf(padd(s, pconst(int(i == j)), -1))
                c.record('ensures %s: row %d . row %d = %d for all angles%s' % (what, i, j, i == j, case), BE_EXACT, not d, time.time() - t,
                         None if not d else 'the residual is ' + showp(E, d)); t = time.time()
        det = ddet(E, R)
        c.record('ensures %s: determinant +1%s' % (what, case), BE_EXACT, det == 1, 0, None if det == 1 else 'determinant %s at zero angles' % det)
        # |computed R R^T - I| <= 6 err + 3 err^2, |det - 1| likewise
        c.record('ensures %s: rounding of R R^T and of the determinant below %g%s' % (what, tol, case), BE_EXACT, 18 * err * (1 + err) <= tol, 0, 'entries within %.3g' % err)
        for a in E.nonan: angles[a.id if is_t(a) else key(a)] = a
    return [a for a in angles.values() if is_t(a)]

def showp(E, d): return ' + '.join('%s*%s' % (float(q), '*'.join(E.syms[i][0] for i in m)) for m, q in sorted(d.items(), key=lambda x: -abs(x[1]))[:5])

def finite_ideal(c, what, args, setup):
    """the angle terms are finite numbers over the input box"""
    t = time.time(); I = Ideal(); setup(I)
    for a in args:
        try: v = I.eval([a])[0]; ok, txt = True, 'in [%.3g, %.3g]' % (v.lo, v.hi)
        except Unsupported as e: ok, txt = False, str(e)
        c.record('ensures %s: the angle %s is a finite number' % (what, show(a, 1)), BE_IDEAL, ok, time.time() - t, txt); t = time.time()

def finite_z3(c, what, args, bounds, hyps=None, pick=None, done=()):
    """the same by z3; bounds: variable name -> (lo, hi)"""
    import z3
    from ..z3be import Z, zb, rv
    Zi = Z(domain=bounds); hs = []
    for n, (lo, hi) in bounds.items():
        v = Zi.t(var(n, 'f')); hs += [z3.Not(zb(v.nan)), v.v >= rv(lo), v.v <= rv(hi)]
    if hyps: hs += hyps(Zi)
    its = []
    for a in args:
        if a.id in done:
            c.record('ensures %s: the angle %s is a finite number' % (what, show(a, 1)), 'callee contract (same term, weaker hypotheses)', True); continue
        z = Zi.t(a)
        its.append(('ensures %s: the angle %s is a finite number' % (what, show(a, 1)), hs, z3.And(z3.Not(zb(z.nan)), z.v < 2**1023, z.v > -2**1023), pick))
    return c.z3(Zi, its, timeout=240)

def no_panic(c, what, ex):
    c.record('no panic reachable in ' + what, 'vc-generator', not ex.obls, 0, [o.where for o in ex.obls][:3] or None)
