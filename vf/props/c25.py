"""Printed dates, times and positions read back as the same value."""
import re
import z3
from ..core import *
from ..z3be import Z, zb, rv
from .. import spec, fmt
from .ftext import *
TRUSTED = TRUST
N = '<tofas::%s as std::fmt::Display>::fmt'
GD360 = '<tofas::ellipsoid::Geodetic360 as std::convert::From<&tofas::ellipsoid::Geodetic>>::from'
L = lambda s: ('lit', s.encode())
def I(t, w): return ('int', t, (False, '0', w))
def S(t): return ('float', t, (False, '0', 9, 6))
def F(t, w, p): return ('float', t, (True, '0', w, p))
def date(v): return [I(v['year'], 4), L('-'), I(v['month'], 2), L('-'), I(v['day'], 2)]
def hms(v): return [I(v['hour'], 2), L(':'), I(v['minute'], 2), L(':'), S(v['second'])]
def pos(lat, lon, h): return [F(lat, 10, 6), L(','), F(lon, 11, 6), L(','), F(h, 9, 2)]

def prove(c):
    rng = c.rng
    def dz(Zi, v): return [spec.valid(Zi.t(v['year']), Zi.t(v['month']), Zi.t(v['day']))]
    # dates
    v, tr, ex = display(c, N % 'calendar::GregorianDate'); Zi = Z()
    pick = lambda m: [('fmt_date', [m['v.year'], m['v.month'], m['v.day']])]
    c.z3_obls(Zi, ex, dz(Zi, v), pick); c.satisfiable(Zi, dz(Zi, v), 'valid dates')
    expect(c, 'a date', tr, date(v), Zi, dz(Zi, v), pick)
    compare(c, 'a date', tr, 'fmt_date', [(a, {v['year']: a[0], v['month']: a[1], v['day']: a[2]}) for cmd, a in cases(rng, 200, 0) if cmd == 'fmt_date'], lambda o: o[0])
    # times
    v, tr, ex = display(c, N % 'calendar::HMS'); s = v['second']
    def tz(Zi, s): return [z3.Not(zb(Zi.t(s).nan)), Zi.t(s).v >= 0]
    Zi = Z(domain={s.args[0]: (0, None)})
    pick = lambda m: [('fmt_hms', [m['v.hour'], m['v.minute'], fl(m, 'v.second')])]
    c.z3_obls(Zi, ex, tz(Zi, s), pick)
    expect(c, 'a time', tr, hms(v), Zi, tz(Zi, s), pick, [s])
    compare(c, 'a time', tr, 'fmt_hms', [(a, {v['hour']: a[0], v['minute']: a[1], s: a[2]}) for cmd, a in cases(rng, 400, 0) if cmd == 'fmt_hms'], lambda o: o[0])
    # date and time
    v, tr, ex = display(c, N % 'calendar::GregorianDateHMS'); d, t = v['date'], v['hms']; s = t['second']
    Zi = Z(domain={s.args[0]: (0, None)}); h = dz(Zi, d) + tz(Zi, s)
    pick = lambda m: [('fmt_dh', [m['v.date.year'], m['v.date.month'], m['v.date.day'], m['v.hms.hour'], m['v.hms.minute'], fl(m, 'v.hms.second')])]
    c.z3_obls(Zi, ex, h, pick)
    expect(c, 'a date and time', tr, date(d) + [L(' ')] + hms(t), Zi, h, pick, [s])
    compare(c, 'a date and time', tr, 'fmt_dh', [(a, dict(zip([d['year'], d['month'], d['day'], t['hour'], t['minute'], s], a))) for cmd, a in cases(rng, 400, 0) if cmd == 'fmt_dh'], lambda o: o[0])
    # positions
    v, tr, ex = display(c, N % 'ellipsoid::Geodetic360'); lat, lon, hgt = v['lat'], v['lon'], v['height']; Zi = Z()
    pick = lambda m: [('fmt_gd360', [fl(m, 'v.lon'), fl(m, 'v.lat'), fl(m, 'v.height')])]
    c.z3_obls(Zi, ex, [], pick)
    expect(c, 'a position in degrees', tr, pos(lat, lon, hgt), Zi, [], pick)
    compare(c, 'a position in degrees', tr, 'fmt_gd360', [(a, {lon: a[0], lat: a[1], hgt: a[2]}) for cmd, a in cases(rng, 400, 0) if cmd == 'fmt_gd360'], lambda o: o[0])
    v, tr, ex = display(c, N % 'ellipsoid::Geodetic'); e, p, hgt = v['elong'], v['phi'], v['height']
    r, ex2 = c.run(GD360, v)
    c.used_contracts = ['Geodetic360::from(&Geodetic) (C22)']
    Zi = Z(landmarks=[180, -180, 90, -90, 360], domain={e.args[0]: (-10**6, 10**6), p.args[0]: (-10**6, 10**6), hgt.args[0]: (None, None)})
    pick = lambda m: [('fmt_gd', [fl(m, 'v.elong'), fl(m, 'v.phi'), fl(m, 'v.height')])]
    c.z3_obls(Zi, ex, [], pick, timeout=100, split=atoms_of(fmt.terms(tr), 8))
    expect(c, 'a position in radians', tr, pos(r['lat'], r['lon'], r['height']), Zi, [], pick)
    compare(c, 'a position in radians', tr, 'fmt_gd', [(a, {e: a[0], p: a[1], hgt: a[2]}) for cmd, a in cases(rng, 400, 0) if cmd == 'fmt_gd'], lambda o: o[0])

def num(rng, p):
    """a double, often close to a tie or a carry of p decimals"""
    q = rng.randint(0, 6)
    if q == 0: return rng.uniform(-400, 400)
    if q == 1: return float(rng.randint(-400, 400))
    if q == 2: return round(rng.uniform(-400, 400), rng.randint(1, p + 1))
    if q == 3: return rng.choice([0.0, -0.0, 5e-324, -5e-324, 1e-7, -4e-7, -5e-7, 5.1e-7])
    if q == 4: return math.nextafter(round(rng.uniform(-200, 200), 1), rng.choice([-1e9, 1e9]))
    if q == 5: return rng.choice([-1, 1]) * 10.0**rng.uniform(-12, 12)
    return (rng.randint(-10**8, 10**8) + 0.5) / 10**p

def sec(rng):
    q = rng.randint(0, 4)
    if q == 0: return float(rng.randint(0, 59))
    if q == 1: return math.nextafter(float(rng.randint(1, 60)), 0.0)
    if q == 2: return rng.uniform(0, 10)
    if q == 3: return rng.choice([0.0, 9.9999994, 9.9999996, 5e-7, 4.9e-7, 59.9999994, 59.5, 0.05])
    return rng.uniform(0, 60)

def cases(rng, n, k):
    out = []
    for i in range(n):
        y = rng.choice([rng.randint(1900, 2100), rng.randint(-4799, 9999), rng.randint(-1000, 1000), rng.randint(10000, 2**31 - 1), rng.randint(-12, 12)])
        m = rng.randint(1, 12); d = rng.randint(1, spec.pmlen(y, m)); h = rng.choice([rng.randint(0, 23), rng.randint(0, 255)]); mi = rng.choice([rng.randint(0, 59), rng.randint(0, 255)])
        c = i % 5
        if c == 0: out.append(('fmt_date', [y, m, d]))
        elif c == 1: out.append(('fmt_hms', [h, mi, sec(rng)]))
        elif c == 2: out.append(('fmt_dh', [y, m, d, h, mi, sec(rng)]))
        elif c == 3: out.append(('fmt_gd360', [num(rng, 6), num(rng, 6), num(rng, 2)]))
        else: out.append(('fmt_gd', [rng.choice([num(rng, 6) / 57.29577951308232, rng.uniform(-7, 7), math.pi, -math.pi]), rng.choice([rng.uniform(-1.6, 1.6), math.pi / 2, -math.pi / 2, 0.0]), num(rng, 2)]))
    return out

def judge(case, out):
    if out[0] != 'ok': return 'expected text'
    a = case[1]; s = out[1][0]
    jd = lambda y, m, d: '%04d-%02d-%02d' % (y, m, d)
    jt = lambda h, m, x: '%02d:%02d:%09.6f' % (h, m, x)
    jp = lambda lat, lon, h: '%+010.6f,%+011.6f,%+09.2f' % (lat, lon, h)
    cmd = case[0]
    if cmd == 'fmt_date': w = jd(*a)
    elif cmd == 'fmt_hms': w = jt(*a)
    elif cmd == 'fmt_dh': w = jd(*a[:3]) + ' ' + jt(*a[3:])
    elif cmd == 'fmt_gd360': w = jp(a[1], a[0], a[2])
    else: lon, lat, h = out[1][1:]; w = jp(lat, lon, h)
    if s != w: return 'prints %r instead of %r' % (s, w)
