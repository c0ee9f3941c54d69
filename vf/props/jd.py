"""Shared by C03, C04, C06: the integer half of GregorianDate::from_julian."""
import time
import numpy as np, z3
from ..core import *
from ..residue import Residue, Refuse, ranges
from .. import spec
FJ = 'tofas::calendar::GregorianDate::from_julian'

def cut(r):
    """-> (ok condition, date dict, fraction, the int cast of the day number)"""
    ok = i_cmp('eq', r.discr, r.names.index('Ok'))
    date, f = r.v['Ok'][0]
    ns = {}
    for x in subterms([date['year'], date['month'], date['day']]):
        if x.op == 'f2i': ns[x.id] = x
    if len(ns) != 1: raise Unsupported('day number: %d float-to-integer casts feed the date' % len(ns))
    return ok, date, f, list(ns.values())[0]

def table(n0, n):
    """n consecutive civil dates from day count n0 on"""
    EY = np.empty(n, np.int64); EM = EY.copy(); ED = EY.copy()
    yy, mm, dd = spec.pdate(n0)
    for i in range(n):
        EY[i] = yy; EM[i] = mm; ED[i] = dd
        dd += 1
        if dd > spec.pmlen(yy, mm):
            dd = 1; mm += 1
            if mm > 12: mm = 1; yy += 1
    return EY, EM, ED

def integer_half(c, ex, date, N, lo, hi, label=''):
    """for every day number J in [lo,hi] the date is valid, and its day count is J + C; returns C.
    Also discharges the panic obligations that depend on J only."""
    t = time.time()
    P = 146097; hi1 = lo + ((hi - lo) // P + 1) * P - 1
    J = var('J', 'i', lo, hi + P)
    y, m, d = subst([date['year'], date['month'], date['day']], {N.id: J})
    todo = [(lo, hi1)]; done = []; C = None; bad = None; cuts = 0
    try:
        while todo:
            a, b = todo.pop(0)
            R = Residue(J, a, b)
            try: ay, by = R.full(R.t(y)); am, bm = R.full(R.t(m)); ad, bd = R.full(R.t(d))
            except Refuse as e:
                cuts += 1
                if e.split is None or cuts > 8: raise
                todo = ranges(a, e.split - 1) + ranges(e.split, b) + todo; continue
            if (ay, am, ad) != (400 if R.K else 0, 0, 0): raise Refuse('the date is not periodic')
            done.append(R)
            if C is None:
                y0, m0, d0 = int(by[0]), int(bm[0]), int(bd[0])
                if not (1 <= m0 <= 12 and 1 <= d0 <= spec.pmlen(y0, m0)): c.record('ensures valid date and exact day count', 'residue', False, time.time() - t, 'J=%d gives %d-%d-%d' % (a, y0, m0, d0)); return None
                C = spec.pmjd(y0, m0, d0) - a
            # expected, from an independent civil-calendar table of one 400-year cycle
            EY, EM, ED = table(a + C, R.P)
            w = np.flatnonzero((by != EY) | (bm != EM) | (bd != ED))
            if len(w) and bad is None: bad = a + int(w[0])
        ok = bad is None
        c.record('ensures valid date whose day count is the day number + %d, for all %d..%d%s' % (C, lo, hi, label), 'residue', ok, time.time() - t,
                 None if ok else 'first failing day number %d' % bad)
        if not ok:
            n = bad + C
            for fr in (0.0, 0.25): c.hints += [('from_julian', [2400000.5, n + fr]), ('dh_from', [2400000.5, n + fr]), ('from_julian', [float(n), 2400000.5])]
            return None
    except Refuse as e:
        c.record('ensures valid date and exact day count', 'residue', False, time.time() - t, 'outside the back end: %s' % e); return None
    rest = []
    for o in ex.obls:
        t = time.time()
        h = subst([o.cond], {N.id: J})[0]
        ok = h is True
        if not ok:
            try: ok = is_t(h) and all(R.valid(h) for R in done)
            except Refuse: ok = False
        if ok: c.record('no %s [%s]%s' % (o.kind, o.where, label), 'residue', True, time.time() - t)
        else: rest.append(o)
    return C, rest
