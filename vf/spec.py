"""Specification functions: the proleptic Gregorian calendar (z3 and Python)."""
import z3
from fractions import Fraction as Q

MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
RD_MJD0 = 678576     # rata die of 1858-11-17

def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
def pick(m, tab):
    e = z3.IntVal(tab[-1])
    for i in range(len(tab) - 1, 0, -1): e = z3.If(m == i, z3.IntVal(tab[i - 1]), e)
    return e
def mlen(y, m): return pick(m, MLEN) + z3.If(z3.And(m == 2, leap(y)), 1, 0)
def valid(y, m, d): return z3.And(y >= -4799, m >= 1, m <= 12, d >= 1, d <= mlen(y, m))
def mjd(y, m, d):
    """days from 1858-11-17: days of the years before y, of the months before m, of this month"""
    p = y - 1
    return 365 * p + p / 4 - p / 100 + p / 400 + pick(m, CUM) + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d - RD_MJD0
def succ(y, m, d):
    """the next calendar day"""
    last = d == mlen(y, m)
    yl = z3.And(last, m == 12)
    return z3.If(yl, y + 1, y), z3.If(yl, 1, z3.If(last, m + 1, m)), z3.If(last, 1, d + 1)

# ------------------------------------------------- Python (independent judge)
def pleap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def pmlen(y, m): return 29 if m == 2 and pleap(y) else MLEN[m - 1]
def pvalid(y, m, d): return y >= -4799 and 1 <= m <= 12 and 1 <= d <= pmlen(y, m)
def pmjd(y, m, d):
    """counted in 400-year blocks from datetime's ordinal (independent of the formula above)"""
    import datetime
    k, y4 = divmod(y - 2000, 400)
    return datetime.date(2000 + y4, m, d).toordinal() + 146097 * k - RD_MJD0
def pdate(n):
    """date of day n"""
    import datetime
    o = n + RD_MJD0 - datetime.date(2000, 1, 1).toordinal()
    k, r = divmod(o, 146097)
    d = datetime.date.fromordinal(datetime.date(2000, 1, 1).toordinal() + r)
    return d.year + 400 * k, d.month, d.day

def calendar_lemmas(c):
    """the closed form counts days: +1 for the next day, 0 at 1858-11-17, injective and monotone"""
    import time
    y, m, d, y2, m2, d2 = z3.Ints('y m d y2 m2 d2')
    def ob(name, hyp, goal):
        s = z3.Solver(); s.set('timeout', 60000); s.add(hyp, z3.Not(goal)); t = time.time()
        c.record(name, 'z3', str(s.check()) == 'unsat', time.time() - t)
    ny, nm, nd = succ(y, m, d)
    ob('lemma: 1858-11-17 is day 0', z3.BoolVal(True), mjd(z3.IntVal(1858), z3.IntVal(11), z3.IntVal(17)) == 0)
    for k in range(1, 13):
        ob('lemma: the successor of a valid date is valid and one day later [month %d]' % k, z3.And(valid(y, m, d), m == k), z3.And(valid(ny, nm, nd), mjd(ny, nm, nd) == mjd(y, m, d) + 1))
