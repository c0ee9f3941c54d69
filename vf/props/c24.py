"""The Sun zenith angle chains the time scales, frames and ephemeris correctly."""
import mpmath, z3
from ..core import *
from ..exact import *
from ..ideal import Ideal
from ..z3be import Z, zb, rv
from .. import spec
from . import c02, c05, c07, c10, c11
from .rot import shallow
from .epv import EPV
S = 'tofas_extras::sun_angle::SunAngleCalculator::'
V = '<[f64; 3] as tofas::common::Vector>::'
FR = 'tofas::frames::celestial_to_terrestrial'
I32 = (-2**31, 2**31 - 1)
TRUSTED = ['libm sin and cos are within 2^-52 of the exact value and in [-1,1] for every finite argument']
AUM = Q(149597870700)
TSUM = Q(1, 2**49)        # relative tolerance of the time scales
XP, YP, DUT1 = Q('0.0349282'), Q('0.4833163'), Q('-0.072073685')
LIM = {'lon': 10**8, 'lat': 10**8, 'hgt': 10**12, 'ds': 10**9}
TERM = 'vc-generator (term identity)'

def zabs(x): return z3.If(x >= 0, x, -x)

def prove(c):
    c.used_contracts = ['GregorianDate::to_julian (C02)', 'HMS::to_fraction_of_day (C05)', 'delta_at (C07)', 'time scales (C08)', 'earth::rotation_angle (C10)', 'Vec3, Mat3 (C11)',
                        'celestial_to_terrestrial: proper rotation (C12), CIO composition (C13)', 'EarthPosVel::from (C16)', 'geodetic_to_geocentric, zenith (C19)', 'Geodetic::from(Geodetic360) (C22)', 'Vector::angle (C23)']
    y, m, d = [var(n, 'i', *I32) for n in 'ymd']
    hh, mm, ss = var('h', 'i', 0, 255), var('mi', 'i', 0, 255), var('s', 'f')
    lon, lat, hgt, ds = [var(n, 'f') for n in ('lon', 'lat', 'hgt', 'ds')]
    date, hms, pos = [y, m, d], [hh, mm, ss], {'lon': lon, 'lat': lat, 'height': hgt}
    calc, exn = c.run(S + 'new', {'date': date, 'time': hms, 'position': pos}, crate='tofas_extras')
    r, exc = c.run(S + 'compute', calc, ds, crate='tofas_extras')
    def pub(name, *args):
        e = Exec(c.prog()); return call(e, name, *args), e
    # ---- panic freedom
    Zi = Z(landmarks=[1, 24, 60, 3600, 86400], domain={'s': (0, Q(math.nextafter(60.0, 0)))})
    Y, M, D, H, MI, SS = [Zi.t(t) for t in (y, m, d, hh, mm, ss)]
    valid = [spec.valid(Y, M, D), H <= 23, MI <= 59, SS.v < 60]
    pick = lambda v: [('sun_chain', [v['y'], v['m'], v['d'], v.get('h', 0), v.get('mi', 0), fl(v, 's') if 's' in v else 0.0, 10.0, 45.0, 0.0, 0.0])]
    rj, _ = pub(c02.TJ, date); rf, _ = pub(c05.TF, hms)
    F = var('fr', 'f')
    cutm = {rf.id: F} if is_t(rf) else {}
    inF = lambda Zx: (lambda f: [f.v >= 0, f.v <= 1])(Zx.t(F))
    # time of day is a fraction of day in [0,1]
    zf = Zi.t(rf)
    c.satisfiable(Zi, valid, 'valid dates and times')
    c.z3(Zi, [('lemma: a valid time of day is a fraction in [0,1] (callee contract of C05)', valid, z3.And(z3.Not(zb(zf.nan)), zf.v >= 0, zf.v <= 1), pick)])
    E = Exact(opaque_trig=True)
    for t, k in ((lon, 'lon'), (lat, 'lat'), (hgt, 'hgt')): E.input(k, -LIM[k], LIM[k])
    Zp = Z(domain={'fr': (0, 1)}); its = []
    for o in exn.obls + exc.obls:
        g, = subst([b_imp(o.pc, o.cond)], cutm)
        names = {t.args[0] for t in subterms([g]) if t.op == 'var'}
        # the part of the path condition that concerns the position only
        posn = [q for q in conjuncts(b_and(o.pc, b_not(o.cond))) if {t.args[0] for t in subterms([q]) if t.op == 'var'} <= {'lon', 'lat', 'hgt'}]
        if posn or not names:
            g = True
            for q in posn: g = b_and(g, q)
            g = b_not(g)
            t = time.time()
            try: ok, txt = holds_shallow(E, g), None
            except Unsupported as x: ok, txt = False, str(x)
            c.record('no %s [%s]' % (o.kind, o.where), BE_EXACT, ok, time.time() - t, txt if txt else None if ok else 'condition ' + show(o.cond, 3)); continue
        hyp = [spec.valid(*[Zp.t(t) for t in (y, m, d)])] + (inF(Zp) if 'fr' in names else [])
        if 's' in names: hyp += [Zp.t(hh) <= 23, Zp.t(mm) <= 59, z3.Not(zb(Zp.t(ss).nan)), Zp.t(ss).v >= 0, Zp.t(ss).v < 60]
        for k in range(1, 13): its.append(('no %s [%s] (month %d)' % (o.kind, o.where, k), hyp + [Zp.t(m) == k], Zp.t(g), pick))
    if its: c.z3(Zp, its)
    else: c.record('no panic reachable (no panic edge survives simplification)', 'vc-generator', True)
    # ---- dates: total of each scale
    N, DAT = var('N', 'i', -3000000, 10**12), var('dat', 'f')
    da, _ = pub(c07.DA, date, rf)
    op = da.v['Ok'][0]
    val = op.v['Some'][0]; some = i_cmp('eq', op.discr, op.names.index('Some'))
    want = ite(some, val, 0.0)
    same_dat(c, 'ensures dat = TAI-UTC of the date (C07), 0 before 1960', r['dat'], want, cutm, rj, N, (y, m, d))
    dt = r['dat']
    cut2 = dict(cutm)
    if is_t(rj[1]): cut2[rj[1].id] = i2f(N)
    if is_t(dt): cut2[dt.id] = DAT
    names = ('jd0', 'jd1', 'utc', 'tai', 'tt', 'ut1')
    flat = [leaves(r[n]) for n in names]
    sub = subst([x for f in flat for x in f], cut2)
    it = iter(sub); T = {n: [next(it) for _ in f] for n, f in zip(names, flat)}
    free = {t.args[0] for t in subterms([x for x in sub if is_t(x)]) if t.op == 'var'} - {'N', 'fr', 'dat', 'ds'}
    c.record('the dates depend on the day count, the fraction of day, TAI-UTC and the shift only', 'vc-generator', not free, 0, sorted(free) or None)
    if not free:
        Zt = Z(domain={'fr': (0, 1), 'dat': (0, 100), 'ds': (-LIM['ds'], LIM['ds'])})
        nv, fv, dv, sv = z3.ToReal(Zt.t(N)), Zt.t(F).v, Zt.t(DAT).v, Zt.t(ds).v
        JD = rv(Q(2400000.5)) + nv + fv + sv * rv(Q(1, 86400))
        tol = rv(TSUM) * (zabs(nv) + zabs(sv) * rv(Q(1, 86400)) + 1)
        def pk(v):
            if 'N' not in v or not LO <= v['N'] < 7 * 10**11: return []
            return [('sun_chain', list(spec.pdate(v['N'])) + [int(v.get('fr', 0) * 24) % 24, 0, 0.0, 10.0, 45.0, 0.0, float(v.get('ds', 0))])]
        c.satisfiable(Zt, [], 'dates')
        its = []
        for n, off in (('jd', rv(0)), ('utc', rv(0)), ('tai', dv), ('tt', dv + rv(Q('32.184'))), ('ut1', rv(DUT1))):
            ts = T['jd0'] + T['jd1'] if n == 'jd' else T[n]
            zs = [Zt.t(x) for x in ts]
            nn = z3.And(*[z3.Not(zb(q.nan)) for q in zs])
            dd = sum(q.v for q in zs) - JD - off * rv(Q(1, 86400))
            its += [('ensures %s = 2400000.5 + day count + fraction + shift%s to 2^-49 (upper)' % (n, '' if n in ('jd', 'utc') else ' + offset'), [], z3.And(nn, dd <= tol), pk),
                    ('ensures %s = 2400000.5 + day count + fraction + shift%s to 2^-49 (lower)' % (n, '' if n in ('jd', 'utc') else ' + offset'), [], dd >= -tol, pk)]
        c.z3(Zt, its)
    c.record('ensures delta_s = the shift given', TERM, same(r['delta_s'], ds), 0, None if same(r['delta_s'], ds) else show(r['delta_s'], 2))
    # ---- compositions of the public functions
    TT, UT = [leaves(r['tt'])], [leaves(r['ut1'])]
    def eq(what, got, want):
        got, want = leaves(got), leaves(want)
        ok = len(got) == len(want) and all(same(p, q) for p, q in zip(got, want))
        c.record('ensures ' + what, TERM, ok, 0, None if ok else 'not the same computation'); return ok
    eq('era = rotation_angle(ut1)', r['era'], pub('tofas::earth::rotation_angle', UT)[0])
    tdb, _ = pub('tofas::time::TDB::from_tt', TT, 0.0)
    earths = [pub(EPV, t)[0]['heliocentric']['p'] for t in (tdb, TT)]
    e = next((q for q in earths if all(same(x, z) for x, z in zip(r['earth'], q))), earths[0])
    eq('earth = heliocentric position at TDB = TT (C16)', r['earth'], e)
    wgs = (6378137.0, 1.0 / 298.257223563)
    conv, _ = pub('tofas::ellipsoid::EllipsoidConverter::new', [wgs[0], wgs[1]])
    gd, _ = pub('<tofas::ellipsoid::Geodetic as std::convert::From<&tofas::ellipsoid::Geodetic360>>::from', pos)
    g2, _ = pub('tofas::ellipsoid::EllipsoidConverter::geodetic_to_geocentric', conv.v['Ok'][0], gd)
    eq('p = geocentric point of the position on WGS84 (C22, C19)', r['p'], g2.v['Ok'][0])
    zen, _ = pub('tofas::ellipsoid::Geodetic::zenith', gd)
    # Sun vector
    xp, yp = pole(c, calc)
    C, _ = pub(FR, TT, UT, xp, yp)
    CV, EV = c11.mat('c'), c11.vec('e')
    cut3 = {x.id: v for x, v in zip(leaves(C) + leaves(r['earth']), leaves(CV) + EV) if is_t(x)}
    sun = subst(leaves(r['sun_e']), cut3)
    free = {t.args[0] for t in subterms([x for x in sun if is_t(x)]) if t.op == 'var'} - {t.args[0] for t in leaves(CV) + EV}
    c.record('the Sun vector is a function of celestial_to_terrestrial(tt, ut1, xp, yp) and the Earth position', 'vc-generator', not free, 0, 'depends directly on ' + ', '.join(sorted(free)[:6]) if free else None)
    if not free:
        N_ = Exact()
        for t in leaves(CV): N_.input(t.args[0], -1.1, 1.1, scale=True)
        for t in EV: N_.input(t.args[0], -1e6, 1e6, scale=True)
        x = lambda t: N_.inputs[t.args[0]].p
        for i in range(3):
            sp = {}
            for j in range(3): padd_in(sp, pscale(pmul(x(CV[i][j]), x(EV[j])), -AUM))
            c.exact('ensures sun_e[%d] = row %d of the celestial-to-terrestrial matrix . -earth in metres' % (i, i), N_, lambda: N_.eval([sun[i]])[0], sp, {**ascale(N_.absof(sp), 2.0**-48), (): 1e-280})
    ang = [pub(V + 'angle', p, q)[0] for p, q in ((zen, r['sun_e']), (r['sun_e'], zen))]
    ok = any(same(r['sza'], q) for q in ang)
    c.record('ensures sza = angle between the zenith of the position and the Sun vector (C19, C23)', TERM, ok, 0, None if ok else 'not the same computation')

LO = spec.pmjd(-4799, 1, 1)
def conjuncts(t):
    if is_t(t) and t.op == 'and': return conjuncts(t.args[0]) + conjuncts(t.args[1])
    return [t] if is_t(t) else []
def holds_shallow(E, g):
    """a boolean term over few float terms"""
    fs = [t for t in subterms([g]) if t.sort == 'f']
    E.eval(fs) if fs else None
    return E.truth(g) is True

def pole(c, calc):
    """the pole constants: fields of the calculator, in radians"""
    out = []
    for k, s in (('xp', XP), ('yp', YP)):
        w = float(s) * (math.pi / 180 / 3600)
        v = next((x for x in leaves(calc) if isinstance(x, float) and abs(x - w) <= 1e-9 * w), calc.get(k) if isinstance(calc, dict) else None)    # whatever the field is called
        if isinstance(v, float):
            ex = mpmath.mpf(s.numerator) / s.denominator * mpmath.pi / 648000
            ok = abs(v - ex) <= 2.0**-50 * abs(ex)
            c.record('ensures %s = %s arcsec' % (k, float(s)), 'exact evaluation', ok, 0, None if ok else 'is %r rad' % v)
            w = v
        out.append(w)
    return out

def same_dat(c, name, got, want, cutm, rj, N, ymd):
    if same(got, want): return c.record(name, TERM, True)
    cut = dict(cutm)
    if is_t(rj[1]): cut[rj[1].id] = i2f(N)
    g, w = subst([got, want], cut)
    Zi = Z(domain={'fr': (0, 1)}); G, W_ = Zi.t(g), Zi.t(w)
    V_ = spec.valid(*[Zi.t(t) for t in ymd])
    return c.z3(Zi, [(name, [V_], z3.And(z3.Not(zb(G.nan)), G.v == W_.v), lambda v: [('sun_chain', [v['y'], v['m'], v['d'], 12, 0, 0.0, 10.0, 45.0, 0.0, 0.0])])])

# ------------------------------------------------------------------ replay
MAXBATCH = 3000
def cases(rng, n, k):
    out = []
    for _ in range(n):
        q = rng.randint(0, 7)
        if q < 4: y, m, d = spec.pdate(rng.randint(30000, 70000))
        elif q == 4:
            ey, em = rng.choice(c07.TABLE)[:2]; y, m, d = spec.pdate(spec.pmjd(ey, em, 1) + rng.choice([-1, 0, 1]))
        elif q == 5: y, m, d = spec.pdate(rng.randint(-20000, 100000))
        else: y, m, d = spec.pdate(rng.randint(LO, 10**9))
        h, mi, s = rng.choice([(0, 0, 0.0), (23, 59, 59.999999999), (rng.randint(0, 23), rng.randint(0, 59), rng.uniform(0, 59.999))])
        p = [rng.choice([0.0, rng.uniform(-180, 180), 180.0, -540.0]), rng.choice([0.0, 90.0, -90.0, rng.uniform(-90, 90), rng.uniform(-90, 90)]), rng.choice([0.0, rng.uniform(-1e4, 1e5)])]
        ds = rng.choice([0.0, 0.0, 1.0, -86400.0, rng.uniform(-1e5, 1e5), rng.uniform(-1e9, 1e9)])
        out.append(('sun_chain', [y, m, d, h, mi, s] + p + [ds]))
    return out

def judge(case, out):
    y, m, d, h, mi, s, lon, lat, hgt, ds = case[1]
    if not spec.pvalid(y, m, d): return
    if out[0] != 'ok': return 'expected a result'
    g = out[1]
    jd0, jd1, dels = g[:3]; p = g[3:6]; utc, dat, tai, tt, ut1 = g[6:8], g[8], g[9:11], g[11:13], g[13:15]
    era, earth, sun, sza = g[15], g[16:19], g[19:22], g[22]
    if any(not math.isfinite(x) for x in g[:16]): return 'not finite'
    n = spec.pmjd(y, m, d); fr = (3600 * h + 60 * mi + Q(s)) / 86400
    if dels != ds: return 'delta_s'
    if y < 1960: w = Q(0)
    else:
        for ey, em, v, ref, rate in reversed(c07.TABLE):
            if (ey, em) <= (y, m): break
        w = Q(v) + (n + fr - ref) * Q(rate)
    if abs(Q(dat) - w) > Q(2, 10**11): return 'dat: expected %.9f' % float(w)
    J = Q(2400000.5) + n + fr + Q(ds) / 86400; tol = TSUM * (1 + abs(n) + abs(Q(ds)) / 86400) * 2
    for nm, v, off in (('jd', [jd0, jd1], 0), ('utc', utc, 0), ('tai', tai, w), ('tt', tt, w + Q('32.184')), ('ut1', ut1, DUT1)):
        if abs(sum(map(Q, v)) - J - off / 86400) > tol: return '%s off by %g days' % (nm, float(sum(map(Q, v)) - J - off / 86400))
    # composition of the public functions on the real code at the returned tt and ut1
    era2, earth2, p2, sun2, zen = g[23], g[24:27], g[27:30], g[30:33], g[33:36]
    if era != era2: return 'era is not rotation_angle(ut1)'
    if p != p2: return 'p is not the geocentric point'
    if not all(map(math.isfinite, earth2)): return
    for a, b in zip(earth, earth2):
        if not abs(a - b) <= 1e-14 * max(map(abs, earth2)): return 'earth is not the heliocentric position at tt'
    k = max(map(abs, sun2))
    for a, b in zip(sun, sun2):
        if not abs(a - b) <= 1e-13 * k: return 'Sun vector differs from the composition by %g m' % (a - b)
    if k == 0 or k > 1e100: return
    mp = mpmath.mp
    if not 0 <= sza <= math.pi: return 'zenith angle not in [0,pi]'
    dot = sum(mp.mpf(a) * b for a, b in zip(zen, sun2)) / mp.sqrt(sum(mp.mpf(a)**2 for a in zen) * sum(mp.mpf(a)**2 for a in sun2))
    if abs(mp.cos(sza) - dot) > 1e-12: return 'zenith angle off (cosine by %s)' % mp.nstr(mp.cos(sza) - dot, 4)
