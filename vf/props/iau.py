"""IAU 2000B precession-nutation, CIO locator and fundamental arguments, written once over an
abstract algebra: exact polynomials (proof) or 40-digit numbers (oracle of the replay)."""
import json
from ..core import *
from ..ideal import *
from .epv import domain, LIBMT, J0
NUT = json.load(open(os.path.join(ROOT, 'spec', 'nut00b.json')))
CIO = json.load(open(os.path.join(ROOT, 'spec', 'cio00.json')))
CENT = Q(36525)
AS = PI / 648000          # arcsecond in radians

class PolyAlg:
    def __init__(self, I): self.I = I
    def c(self, q): return pconst(Q(q))
    def add(self, *a):
        r = dict(a[0])
        for x in a[1:]: padd_in(r, x)
        return r
    def mul(self, a, b): return pmul(a, b)
    def scale(self, a, k): return pscale(a, Q(k))
    def neg(self, a): return pscale(a, -1)
    def sin(self, a): return self.I.trig('sin', a)
    def cos(self, a): return self.I.trig('cos', a)
class MpAlg:
    def __init__(self): self.mp = mpmath.mp.clone(); self.mp.dps = 40
    def c(self, q): q = Q(q); return self.mp.mpf(q.numerator) / q.denominator
    def add(self, *a): return sum(a[1:], a[0])
    def mul(self, a, b): return a * b
    def scale(self, a, k): return a * self.c(k)
    def neg(self, a): return -a
    def sin(self, a): return self.mp.sin(a)
    def cos(self, a): return self.mp.cos(a)

def horner(A, t, cs):
    r = A.c(0)
    for k in reversed(cs): r = A.add(A.mul(r, t), A.c(Q(k)))
    return r
def lin(A, t, c0, c1): return horner(A, t, (Q(c0), Q(c1)))

# ---------------------------------------------------------------- matrices
def rot(A, axis, th):
    c, s = A.cos(th), A.sin(th); z, o = A.c(0), A.c(1)
    R = [[z] * 3 for _ in range(3)]
    i, j = (axis + 1) % 3, (axis + 2) % 3
    R[axis][axis] = o; R[i][i] = c; R[i][j] = s; R[j][i] = A.neg(s); R[j][j] = c
    return R
def mm(A, X, Y): return [[A.add(*[A.mul(X[i][k], Y[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]
def prod(A, *Ms):
    r = Ms[0]
    for m in Ms[1:]: r = mm(A, r, m)
    return r

# ------------------------------------------------------------------- angles
NUTARGS = [('485868.249036', '1717915923.2178'), ('1287104.79305', '129596581.0481'), ('335779.526232', '1739527262.8478'),
           ('1072260.70369', '1602961601.2090'), ('450160.398036', '-6962890.5431')]
def nutation(A, t):
    fa = [A.scale(lin(A, t, a, b), AS) for a, b in NUTARGS]
    dp = A.c(0); de = A.c(0); ps = []; es = []
    for m, cl in zip(NUT['multipliers'], NUT['coefficients']):
        arg = A.add(*[A.scale(f, k) for f, k in zip(fa, m)])
        s, c = A.sin(arg), A.cos(arg)
        cl = [Q(x) for x in cl]
        ps += [A.mul(lin(A, t, cl[0], cl[1]), s), A.scale(c, cl[2])]
        es += [A.mul(lin(A, t, cl[3], cl[4]), c), A.scale(s, cl[5])]
    dpsi = A.add(A.scale(A.add(*ps), AS / 10**7), A.c(Q('-0.135') * AS / 1000))
    deps = A.add(A.scale(A.add(*es), AS / 10**7), A.c(Q('0.388') * AS / 1000))
    return dpsi, deps
def precession_rate(A, t): return A.scale(t, Q('-0.29965') * AS), A.scale(t, Q('-0.02524') * AS)
def mean_obliquity(A, t): return A.scale(horner(A, t, ('84381.448', '-46.8150', '-0.00059', '0.001813')), AS)
BIAS = tuple(Q(x) * AS for x in ('-0.041775', '-0.0068192', '-0.0146'))     # in longitude, in obliquity, in right ascension
EPS0 = Q('84381.448') * AS
def bias_and_precession(A, t):
    s0 = A.sin(A.c(EPS0))
    rb = prod(A, rot(A, 0, A.c(-BIAS[1])), rot(A, 1, A.scale(s0, BIAS[0])), rot(A, 2, A.c(BIAS[2])))
    dpsipr, depspr = precession_rate(A, t)
    psia = A.add(A.scale(horner(A, t, (0, '5038.7784', '-1.07259', '-0.001147')), AS), dpsipr)
    oma = A.add(A.c(EPS0), A.scale(horner(A, t, (0, 0, '0.05127', '-0.007726')), AS), depspr)
    chia = A.scale(horner(A, t, (0, '10.5526', '-2.38064', '-0.001125')), AS)
    rp = prod(A, rot(A, 2, chia), rot(A, 0, A.neg(oma)), rot(A, 2, A.neg(psia)), rot(A, 0, A.c(EPS0)))
    return rb, rp, mm(A, rp, rb)
def nutation_matrix(A, eps, dpsi, deps):
    return prod(A, rot(A, 0, A.neg(A.add(eps, deps))), rot(A, 2, A.neg(dpsi)), rot(A, 0, eps))
def precession_nutation(A, t):
    dpsi, deps = nutation(A, t)
    eps = A.add(mean_obliquity(A, t), precession_rate(A, t)[1])
    return mm(A, nutation_matrix(A, eps, dpsi, deps), bias_and_precession(A, t)[2])

# ------------------------------------------------- fundamental arguments, locator
FUND = {'l03': ('485868.249036', '1717915923.2178', '31.8792', '0.051635', '-0.00024470'),
        'lp03': ('1287104.793048', '129596581.0481', '-0.5532', '0.000136', '-0.00001149'),
        'f03': ('335779.526232', '1739527262.8478', '-12.7512', '-0.001037', '0.00000417'),
        'd03': ('1072260.703692', '1602961601.2090', '-6.3706', '0.006593', '-0.00003169'),
        'om03': ('450160.398036', '-6962890.5431', '7.4722', '0.007702', '-0.00005939'),
        've03': ('3.176146697', '1021.3285546211'), 'e03': ('1.753470314', '628.3075849991'), 'pa03': ('0', '0.024381750', '0.00000538691')}
FNAMES = ['l03', 'lp03', 'f03', 'd03', 'om03', 've03', 'e03', 'pa03']
def fund(A, t, n):
    p = horner(A, t, FUND[n])
    return A.scale(p, AS) if len(FUND[n]) == 5 else p
def cio(A, t, x, y):
    fa = [fund(A, t, n) for n in FNAMES]
    out = []
    for k in range(5):
        ts = [A.c(Q(CIO['polynomial'][k]))]
        for m, (S, C) in zip(CIO['multipliers'][k], CIO['coefficients'][k]):
            arg = A.add(*[A.scale(f, j) for f, j in zip(fa, m)])
            ts += [A.scale(A.sin(arg), Q(S)), A.scale(A.cos(arg), Q(C))]
        out.append(A.add(*ts))
    s = A.c(Q(CIO['polynomial'][5]))
    for k in range(4, -1, -1): s = A.add(A.mul(s, t), out[k])
    return A.add(A.scale(s, AS), A.scale(A.mul(x, y), Q(-1, 2)))

SPLIT3 = [('first part 2451545', J0), ('first part 2400000.5', Q(2400000) + Q(1, 2)), ('any split with parts up to 3e6 days', None)]
def tof(A, a, b): return A.c((Q(a) + Q(b) - J0) / CENT)
