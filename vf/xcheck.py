"""Cross-check of the verification-condition generator against the compiled crates.

The symbolic result of every function under contract is instantiated at concrete inputs and
compared bit for bit with what the compiled function returns, panics included.  This is a check of
the tool, not of a property: a disagreement means the obligations do not speak about the code."""
import math, time
from . import term
from .term import *
from .exec import EnumVal, Ptr, Unsupported

V = '<[f64; 3] as tofas::common::Vector>::'; M = '<[[f64; 3]; 3] as tofas::common::Matrix>::'
CMD = {V + n: 'v' + n for n in ('neg', 'scale', 'add', 'sub', 'norm', 'normalize', 'dot', 'angle')}
CMD.update({M + n: 'm' + n for n in ('zero', 'identity', 'apply', 'compose', 'transpose', 'rotation')})
CMD.update({'tofas::fundargs::' + n: n for n in ('l03', 'lp03', 'f03', 'd03', 'om03', 've03', 'e03', 'pa03')})
CMD.update({'tofas::frames::' + n: n for n in ('bias_and_precession', 'frame_bias', 'mean_obliquity', 'nutation', 'nutation_matrix', 'precession_nutation', 'precession_rate')})
CMD.update({'tofas::time::%s::total' % n: n.lower() + '_total' for n in ('TT', 'UTC', 'TAI', 'UT1')})
CMD.update({
    '<tofas::calendar::GregorianDate as tofas::delta_at::DeltaAt>::delta_at': 'delta_at',
    '<tofas::earth::EarthPosVel as std::convert::From<tofas::time::TDB>>::from': 'epv',
    '<tofas::ellipsoid::Geodetic as std::convert::From<&tofas::ellipsoid::Geodetic360>>::from': 'gd_from_360',
    '<tofas::ellipsoid::Geodetic as std::convert::From<tofas::ellipsoid::Geodetic360>>::from': 'gd_from_360v',
    '<tofas::ellipsoid::Geodetic360 as std::convert::From<&tofas::ellipsoid::Geodetic>>::from': 'gd_to_360',
    '<tofas::ellipsoid::Geodetic360 as std::convert::From<tofas::ellipsoid::Geodetic>>::from': 'gd_to_360v',
    '<tofas::time::TT as std::convert::From<tofas::time::TAI>>::from': 'tt_from_tai',
    'tofas::calendar::GregorianDate::from_julian': 'from_julian', 'tofas::calendar::GregorianDate::new': 'date_new', 'tofas::calendar::GregorianDate::to_julian': 'to_julian',
    'tofas::calendar::GregorianDateHMS::from_julian': 'dh_from', 'tofas::calendar::GregorianDateHMS::to_julian': 'dh_to',
    'tofas::calendar::HMS::from_fraction_of_day': 'hms_from', 'tofas::calendar::HMS::to_fraction_of_day': 'hms_to',
    'tofas::common::anp': 'anp', 'tofas::earth::polar_motion_matrix': 'pom', 'tofas::earth::rotation_angle': 'era',
    'tofas::ellipsoid::EllipsoidConverter::ellipsoid': 'ec_new', 'tofas::ellipsoid::EllipsoidConverter::new': 'ec_new',
    'tofas::ellipsoid::EllipsoidConverter::geocentric_to_geodetic': 'gc2gd', 'tofas::ellipsoid::EllipsoidConverter::geodetic_to_geocentric': 'gd2gc',
    'tofas::ellipsoid::Geodetic::zenith': 'zenith', 'tofas::frames::celestial_to_intermediate': 'c2i', 'tofas::frames::celestial_to_intermediate_from_xys': 'c2i_xys',
    'tofas::frames::celestial_to_intermediate_with_bpn': 'c2i_bpn', 'tofas::frames::celestial_to_intermediate_with_bpn_and_xy': 'c2i_xy',
    'tofas::frames::celestial_to_terrestrial': 'c2t', 'tofas::frames::celestial_to_terrestrial_from_cio_components': 'c2t_cio', 'tofas::frames::xy_from_bpn': 'xy_bpn',
    'tofas::locator::cio': 'cio', 'tofas::time::TAI::from_utc_delta_at': 'tai_from_utc', 'tofas::time::TDB::from_tt': 'tdb_from_tt',
    'tofas::time::TT::from_ut1': 'tt_from_ut1', 'tofas::time::UT1::from_tt': 'ut1_from_tt', 'tofas_extras::sun_angle::SunAngleCalculator::compute': 'sun'})
SUNVARS = ('y', 'm', 'd', 'h', 'mi', 's', 'lon', 'lat', 'hgt', 'ds')

def leaves(v):
    if isinstance(v, dict): v = list(v.values())
    if isinstance(v, (list, tuple)): return [x for y in v for x in leaves(y)]
    return [v]

def flatten(v, get, opt_payload=True):
    """-> ('ok', values) or ('err', name)"""
    if isinstance(v, EnumVal):
        d = v.names[get(v.discr)]
        if d == 'Ok': return flatten(v.v['Ok'], get, opt_payload)
        if d == 'Err': 
            e = leaves(v.v['Err'])[0]
            return ('err', e.names[get(e.discr)])
        if d == 'None': return ('ok', [0])
        if d == 'Some': return ('ok', [1] + (flatten(v.v['Some'], get)[1] if opt_payload else []))
        raise Unsupported('enum')
    if isinstance(v, dict): v = list(v.values())
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            k = flatten(x, get, opt_payload)
            if k[0] == 'err': return k
            out += k[1]
        return ('ok', out)
    return ('ok', [get(v)])

def terms_of(v):
    if isinstance(v, EnumVal): return terms_of(v.discr) + [t for p in v.v.values() if p is not None for t in terms_of(p)]
    if isinstance(v, dict): v = list(v.values())
    if isinstance(v, (list, tuple)): return [t for x in v for t in terms_of(x)]
    return [v] if is_t(v) else []

def rnd(rng, v):
    if v.sort == 'i':
        if rng.random() < .6: return max(v.lo, min(v.hi, rng.choice([rng.randint(0, 31), rng.randint(1900, 2100), rng.randint(0, 12), rng.randint(-5000, 5000)])))
        return rng.randint(v.lo, v.hi)
    return rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-7, 7), rng.uniform(0, 1), rng.uniform(-1e5, 1e5), 2451545.0, 2400000.5, rng.uniform(-1e7, 1e7), 0.0, rng.gauss(0, 1) * 10.0**rng.uniform(-20, 20)])

def run(check, mod, budget=4.0):
    """-> (number of comparisons, list of disagreements)"""
    t0 = time.time(); rng = check.rng; done = 0; bad = []; skipped = {}
    pool_ = {}
    try:
        for cs in mod.cases(rng, 300, 0): pool_.setdefault(cs[0], []).append(cs[1])
    except Exception: pass
    todo = []; seen = set()
    for name, args, r, ex in check.runs:
        cmd = CMD.get(name)
        if cmd is None or r is None and not ex.obls: continue
        if cmd == 'sun': inp = None
        elif cmd in ('gc2gd', 'gd2gc'):
            el = args[0]['ellipsoid'] if isinstance(args[0], dict) and 'ellipsoid' in args[0] else None
            if el is None: continue
            inp = leaves(el) + leaves(args[1:])
        elif cmd == 'ec_new' and name.endswith('ellipsoid'): continue
        else: inp = leaves(args)
        obls = ex.obls if cmd != 'sun' else ex.obls + [o for n2, _, _, e2 in check.runs if n2.endswith('SunAngleCalculator::new') for o in e2.obls]
        roots = terms_of(r) + [t for o in obls for t in (o.pc, o.cond) if is_t(t)]
        sub = subterms(roots)
        if any(t.op in ('uf', 'ffrombits') for t in sub): continue
        vs = {t.args[0]: t for t in sub if t.op == 'var'}
        if inp is None: inp = [vs.get(n) for n in SUNVARS]
        if any(is_t(x) and x.op != 'var' or x is None for x in inp): continue
        k = (name, tuple(map(key, inp)))
        if k in seen: continue
        seen.add(k)
        todo.append((len(sub), name, cmd, inp, r, obls, roots))
    todo.sort(key=lambda x: x[0])
    term.CONCRETE[0] = True
    try:
        for i, (size, name, cmd, inp, r, obls, roots) in enumerate(todo):
            left = budget - (time.time() - t0)
            if left <= 0: check.notes.append('cross-check: no time for ' + name); continue
            share = left / (len(todo) - i)
            have = pool_.get(cmd, []); rng.shuffle(have); cases = []
            for q in range(40):
                if q < len(have) and q < 24 and len(have[q]) == len(inp):
                    c = [float(b) if (is_t(a) and a.sort == 'f' or a.__class__ is float) else b for a, b in zip(inp, have[q])]
                    if cmd == 'gd2gc' or any(not is_t(a) and a != b for a, b in zip(inp, c)): continue
                else:
                    asg = {}; c = []
                    for a in inp:
                        if is_t(a) and a.id not in asg: asg[a.id] = rnd(rng, a)
                        c.append(asg[a.id] if is_t(a) else a)
                    if cmd in ('gd2gc', 'gc2gd') and is_t(inp[0]): 
                        c[0] = rng.choice([6378137.0, 1.0, rng.uniform(1, 1e7)]); c[1] = rng.choice([1 / 298.257223563, 0.0, rng.uniform(0, 0.01)])
                # one value per variable
                asg = {}
                if any(is_t(a) and asg.setdefault(a.id, b) != b for a, b in zip(inp, c)): continue
                cases.append(c)
            t1 = time.time(); k = 0
            outs = check.replay([(cmd, c) for c in cases])
            for c, o in zip(cases, outs):
                if k and time.time() - t1 > share: break
                k += 1; done += 1
                m = {a.id: b for a, b in zip(inp, c) if is_t(a)}
                vals = dict(zip([t.id for t in roots], subst(roots, m)))
                get = lambda t: vals[t.id] if is_t(t) else t
                panics = any(get(ob.pc) is True and get(ob.cond) is False for ob in obls)
                if o[0] in ('hang', 'crash'): continue
                try: mine = ('panic',) if panics else flatten(r, get, cmd != 'epv')
                except (KeyError, TypeError, IndexError) as e: mine = ('?', repr(e))
                if cmd == 'ec_new' and mine[0] == 'ok': mine = ('ok', mine[1][:2])
                ok = mine[0] == o[0] and (mine[0] == 'panic' or mine[0] == 'err' and mine[1] == o[1] or
                     mine[0] == 'ok' and len(mine[1]) == len(o[1]) and all(eq(a, b) for a, b in zip(mine[1], o[1])))
                if not ok: bad.append('%s(%s): the verification conditions say %s, the compiled code %s' % (name, ', '.join(map(repr, c)), str(mine)[:600], str(o)[:600])); break
    finally: term.CONCRETE[0] = False
    return done, bad

def eq(a, b):
    if a.__class__ is bool: a = int(a)
    if a.__class__ is float and b.__class__ is float: return bits(a) == bits(b) or (math.isnan(a) and math.isnan(b))
    return a.__class__ is b.__class__ and a == b
