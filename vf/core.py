"""A check: contracts -> obligations -> verdict -> evidence."""
import itertools, json, math, multiprocessing, os, random, signal, subprocess, sys, threading, time, traceback
from fractions import Fraction as Q
from . import build, xcheck
from .term import *
from .mir import Program
from .exec import Exec, Unsupported, call, EnumVal, Obl, flat

ROOT = build.ROOT

HANG = 100      # seconds a batch of replayed calls may take
PROVE = {'quick': 600, 'thorough': 6000}
class TimeUp(Exception): pass

class Replay:
    def __init__(self, exe):
        self.exe = exe; self.n = 0
    def __call__(self, cases):
        """cases: list of (fn, [args]); floats are python floats.  -> list of results
        ('ok', [values]) / ('err', name) / ('panic',)"""
        if not cases: return []
        lines = []
        for fn, args in cases:
            lines.append(' '.join([fn] + ['%016x' % bits(a) if isinstance(a, float) else str(a) for a in args]))
        out = []; ls = []; bad = 0
        while len(ls) < len(lines):
            # the answers come line by line: a call that never returns, or ends the process, is the first one without
            try:
                p = subprocess.run([self.exe], input='\n'.join(lines[len(ls):]) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=HANG)
                new, why = p.stdout, 'crash'
            except subprocess.TimeoutExpired as e:
                new, why = e.stdout or b'', 'hang'
                if isinstance(new, bytes): new = new.decode()
            ls += new[:new.rfind('\n') + 1].splitlines()
            if len(ls) < len(lines):
                ls.append(why); bad += 1
                if bad >= 3: ls += [why] * (len(lines) - len(ls))
        if len(ls) != len(lines): raise RuntimeError('replay: %d answers for %d cases' % (len(ls), len(lines)))
        self.n += len(lines)
        for l in ls:
            w = l.split()
            if w[0] == 'ok': out.append(('ok', [word(x) for x in w[1:]]))
            elif w[0] == 'err': out.append(('err', w[1]))
            elif w[0] == 'panic': out.append(('panic',))
            elif w[0] in ('hang', 'crash'): out.append((w[0],))
            else: raise RuntimeError('replay: ' + l)
        return out

class Atoms(list): pass

def atoms_of(roots, limit=6):
    """comparison atoms the result depends on (for case splits)"""
    a = Atoms(t for t in subterms(roots) if t.sort == 'b' and t.op in ('flt', 'fle', 'feq', 'ile', 'ieq'))
    a.limit = limit
    return a

def threshold(t):
    """for a comparison of an integer expression with a constant: (expression, c, truth value of the comparison for expression <= c)"""
    if t.op != 'ile': return
    a, b = t.args
    x, c, up = (a, b, True) if is_t(a) else (b, a - 1, False)
    if is_t(c): return
    if x.op == 'iadd' and not is_t(x.args[1]): x, c = x.args[0], c - x.args[1]
    return x, c, up

def cases_of(Zi, split):
    """exhaustive cases: when one integer expression is compared with four or more constants, one case per
    interval between them; of the other comparisons the first few, one case per truth value"""
    import z3
    fam, order = {}, []
    for t in split:
        z = Zi.t(t)
        if isinstance(z, bool): continue
        th = threshold(t)
        if th: fam.setdefault(th[0].id, {})[th[1]] = z if th[2] else z3.Not(z)
        order.append((th and th[0].id, z))
    combos = [[]]; done = set()
    for k, f in fam.items():
        if len(f) < 4 or len(combos) * (len(f) + 1) > 100: continue
        done.add(k)
        cs = sorted(f)
        cases = [([z3.Not(f[cs[i - 1]])] if i else []) + ([f[cs[i]]] if i < len(cs) else []) for i in range(len(cs) + 1)]
        combos = [a + b for a in combos for b in cases]
    rest = [z for k, z in order if k not in done][:getattr(split, 'limit', 6)]
    while len(combos) > 1 and len(combos) * 2**len(rest) > 150 and rest: rest.pop()
    return [a + [x if v else z3.Not(x) for x, v in zip(rest, vs)] for a in combos for vs in itertools.product((False, True), repeat=len(rest))]

def word(x):
    if x[0] == 's': return bytes.fromhex(x[1:]).decode('utf-8', 'replace')
    return unbits(int(x, 16)) if len(x) == 16 and not x.startswith('-') else int(x)

def show_case(case):
    return case[0] + '(' + ', '.join(repr(a) for a in case[1]) + ')'

def pool(jobs, limit, procs=8):
    """jobs: list of callables run in forked children -> results in order; None on timeout"""
    res = [None] * len(jobs); running = {}; nxt = 0
    ctx = multiprocessing.get_context('fork')
    def child(w, f):
        try: w.send(('ok', f()))
        except BaseException as e: w.send(('exc', ''.join(traceback.format_exception(e))[-2000:]))
        w.close(); os._exit(0)
    try:
        while nxt < len(jobs) or running:
            while nxt < len(jobs) and len(running) < procs:
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(w, jobs[nxt])); p.start(); w.close()
                running[nxt] = (p, r, time.time()); nxt += 1
            ready = multiprocessing.connection.wait([x[1] for x in running.values()], 0.2)
            for i in list(running):
                p, r, t0 = running[i]
                if r in ready:
                    try: res[i] = r.recv()
                    except EOFError: res[i] = ('exc', 'solver process died')
                    p.join(); r.close(); del running[i]
                elif time.time() - t0 > limit:
                    p.kill(); p.join(); r.close(); res[i] = ('timeout', None); del running[i]
    finally:
        for p, r, t0 in running.values(): p.kill(); p.join()
    return res
import multiprocessing.connection

class Guided(random.Random):
    """once `pool` holds constants the code compares with, draws inputs near them (in the range asked for)"""
    pool = (); ints = ()
    def getrandbits(self, k): return super().getrandbits(k)
    def near(self):
        u = super().random; v = self.choice(self.pool); q = self.randrange(8)
        if q < 2: w = v
        elif q == 2: w = v * u()
        elif q == 3: w = v * (1 + u())
        elif q == 4: w = math.nextafter(v, self.choice((-math.inf, math.inf)))
        elif q == 5: w = math.sqrt(abs(v)) * self.choice((1, u(), 1 + u()))
        elif q == 6: w = 1 / v if v else 0.0
        else: w = v * 10.0**-(16 * u())
        w = self.choice((w, -w))
        q = self.randrange(6)
        if q == 0: w += self.randint(-8, 8) * math.pi / 2
        elif q == 1: w += self.randint(-100000, 100000) * self.choice((.5, 1, 1e-3))
        elif q == 2: w *= self.choice((180 / math.pi, math.pi / 180, 86400, 1 / 86400))
        return w
    def random(self):
        if self.pool and super().random() < .1:
            w = abs(self.near())
            if w < 1: return w
        return super().random()
    def uniform(self, a, b):
        if self.pool and super().random() < .4:
            w = self.near()
            if a <= w <= b: return w
        return a + (b - a) * super().random()
    def randint(self, a, b):
        if self.ints and super().random() < .15:
            w = self.choice(self.ints) * self.choice((1, 1, 1, -1)) + self.choice((-1, 0, 0, 1))
            if a <= w <= b: return w
        return self.randrange(a, b + 1)

class Found(Exception):
    """a failing input is known: the remaining obligations need not be tried"""

class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obs = []            # every obligation of this run
        self.fails = []          # failed obligations
        self.hints = []          # candidate failing inputs from counterexamples
        self.functions = {}      # function -> 'contract' | 'inlined' | 'callee contract used'
        self.trusted = set()
        self.notes = []
        self.bounded = []
        self.vacuity = []
        self.progs = {}
        self.found = None; self.replayed = 0
        self.runs = []           # (function, arguments, symbolic result, executor)
        self.rng = Guided(seed * 1000003 + int(pid[1:]))
        self.deadline = self.t0 + (700 if tier == 'quick' else 3000)

    # --------------------------------------------------------------- build
    def prog(self, crate='tofas'):
        p = self.progs.get(crate)
        if p is None: p = self.progs[crate] = Program(os.path.join(self.mir, crate + '.json'))
        return p

    def run(self, name, *args, crate='tofas', contracts=None):
        """verification conditions of the real function: symbolic result and panic obligations"""
        ex = Exec(self.prog(crate))
        if contracts: ex.contracts.update(contracts)
        self.functions[name] = 'contract'
        r = None
        try: r = call(ex, name, *args); self.runs.append((name, args, r, ex))
        finally:
            for f in ex.called:
                if 'tofas' in f: self.functions.setdefault(f, 'inlined into its callers')
        if ex.lent: self.record('frame: %s leaves what its reference arguments point to unchanged' % name, 'vc-generator', not ex.frame, 0, ', '.join(ex.frame) or None)
        return r, ex

    # ---------------------------------------------------------- obligations
    def record(self, name, backend, ok, secs=0.0, note=None):
        self.obs.append({'obligation': name, 'back_end': backend, 'ok': bool(ok), 's': round(secs, 3)})
        if note: self.obs[-1]['note'] = note
        if not ok: self.fails.append({'obligation': name, 'back_end': backend, 'output': str(note)[:4000]})
        return ok

    def z3(self, Zi, items, timeout=60, split=None, first=10):
        """items: (name, hyps, goal[, pick]) with pick(model) -> replay cases.
        split: boolean terms of the code; an obligation the solver does not
        settle within `first` seconds is retried as one case per truth assignment."""
        import z3
        def mkjob(it, extra, tmo):
            def f():
                st, m, dt = Zi.check(list(it[1]) + extra, it[2], int(tmo * 1000))
                return st, (zmodel(Zi, m) if m is not None else None), dt
            return f
        t1 = min(first, timeout)
        res = pool([mkjob(it, [], t1) for it in items], t1 + 20)
        res = [r[1] if r[0] == 'ok' else ('unknown', None, t1) for r in res]
        todo = [i for i, r in enumerate(res) if r[0] == 'unknown' and (split or timeout > t1)]
        if todo or any(r[0] != 'unsat' for r in res): self.probe(items, res)
        if todo:
            combos = cases_of(Zi, split or [])
            js = [(i, cb) for i in todo for cb in combos]
            r2 = pool([mkjob(items[i], cb, timeout) for i, cb in js], timeout + 20)
            for i in todo:
                rs = [r[1] if r[0] == 'ok' else ('unknown', None, timeout) for (j, cb), r in zip(js, r2) if j == i]
                dt = res[i][2] + sum(r[2] for r in rs)
                sat = [r for r in rs if r[0] == 'sat']
                if sat: res[i] = ('sat', sat[0][1], dt)
                elif all(r[0] == 'unsat' for r in rs): res[i] = ('unsat', None, dt)
                else: res[i] = ('unknown', None, dt)
        allok = True
        for it, (st, vals, dt) in zip(items, res):
            note = None
            if st == 'sat':
                note = 'counterexample: ' + ', '.join('%s=%s' % (k, fmt(v)) for k, v in sorted(vals.items()))
                if len(it) > 3 and it[3]:
                    try: self.hints += list(it[3](vals))
                    except Exception as e: note += ' (no input derived: %r)' % e
            elif st == 'unknown': note = 'solver: unknown (time limit)'
            allok = self.record(it[0], 'z3', st == 'unsat', dt, note) and allok
        return allok

    def probe(self, items, res):
        """some obligation is not settled yet: before the longer attempts, a short search on the real code"""
        h = []
        for it, (st, vals, dt) in zip(items, res):
            if st == 'sat' and len(it) > 3 and it[3]:
                try: h += list(it[3](vals))
                except Exception: pass
        found, n = self.hunt(self.mod, 3, h, any(r[0] == 'sat' for r in res))
        self.replayed += n
        if not found: return
        self.found = found
        for it, (st, vals, dt) in zip(items, res):
            note = None if st == 'unsat' else 'counterexample: ' + ', '.join('%s=%s' % (k, fmt(v)) for k, v in sorted(vals.items())) if st == 'sat' else 'not settled within %g s; the search on the real code found a failing input' % dt
            self.record(it[0], 'z3', st == 'unsat', dt, note)
        raise Found()

    def z3_alt(self, alts, Zi, **kw):
        """alternative proofs of the same obligations: the first that succeeds counts"""
        for i, items in enumerate(alts):
            n0, f0, h0 = len(self.obs), len(self.fails), len(self.hints)
            if self.z3(Zi, items, **kw): return True
            if i + 1 < len(alts): del self.obs[n0:]; del self.fails[f0:]
        return False

    def alt(self, *proofs):
        """alternative proofs (functions of this object) of the same obligations: the first that succeeds counts"""
        for i, f in enumerate(proofs):
            n0, f0 = len(self.obs), len(self.fails)
            if f(self): return True
            if i + 1 < len(proofs): del self.obs[n0:]; del self.fails[f0:]
        return False

    def ideal(self, name, I, v, spec, tol, turns=False, extra=0.0):
        """obligation |computed - spec| <= tol over the whole input box, by the exact-real domain"""
        t = time.time()
        try: d, e, top = I.distance(v, spec, turns)
        except Unsupported as x: return self.record(name, BE_IDEAL, False, time.time() - t, str(x))
        d += extra
        ok = d <= tol
        return self.record(name, BE_IDEAL, ok, time.time() - t,
            ('bound %.3g (of it rounding %.3g) <= %.3g' % (d, e, tol)) if ok else 'the difference from the specified expression can reach %.3g > %.3g (rounding %.3g); largest differing terms: %s' % (d, tol, e, top))

    def exact(self, name, E, v, spec, tol):
        """obligation |computed - spec| <= tol, both polynomials in the (unbounded) inputs"""
        t = time.time()
        try: ok, txt = E.within(v() if callable(v) else v, spec, tol)
        except Unsupported as x: ok, txt = False, str(x)
        return self.record(name, BE_EXACT, ok, time.time() - t, txt)

    def no_panic(self, what, E, ex):
        """panic obligations by the exact-real domain"""
        if not ex.obls: return self.record('no panic reachable in %s (no panic edge survives simplification)' % what, 'vc-generator', True)
        for o in ex.obls:
            t = time.time()
            try: ok = E.holds(b_imp(o.pc, o.cond)); txt = None
            except Unsupported as x: ok, txt = False, str(x)
            self.record('no %s [%s]' % (o.kind, o.where), BE_EXACT, ok, time.time() - t, txt)

    def z3_obls(self, Zi, ex, hyps, pick=None, timeout=60, split=None):
        """the panic obligations met while executing"""
        its = []
        for i, o in enumerate(ex.obls):
            g = b_imp(o.pc, o.cond)
            its.append(('no %s [%s]' % (o.kind, o.where), hyps, Zi.t(g), pick))
        if not ex.obls: self.record('no panic reachable (no panic edge survives simplification)', 'vc-generator', True)
        return self.z3(Zi, its, timeout, split)

    def satisfiable(self, Zi, hyps, what):
        """vacuity: the hypotheses and axioms admit a model"""
        import z3
        s = z3.Solver(); s.set('timeout', 20000)
        for d in Zi.defs: s.add(d)
        for h in hyps: s.add(z3.BoolVal(h) if isinstance(h, bool) else h)
        r = str(s.check())
        self.vacuity.append({'hypotheses': what, 'result': r})
        if r == 'unsat': self.record('hypotheses not contradictory: ' + what, 'z3', False, 0, 'axioms and hypotheses are unsatisfiable')

    # ------------------------------------------------------------- verdict
    def judge_all(self, mod, cases):
        """-> list of (case, out, message) that break the property"""
        bad = []
        outs = self.replay(cases)
        for cs, o in zip(cases, outs):
            m = {'hang': 'does not return', 'crash': 'ends the process'}.get(o[0]) or mod.judge(cs, o)
            if m: bad.append((cs, o, m))
        return bad

    def thresholds(self):
        """the constants the current code compares with"""
        pool, ints = set(), set()
        for _, _, r, ex in self.runs:
            for t in subterms(flat(r) + [x for o in ex.obls for x in (o.pc, o.cond)]):
                if t.op in ('flt', 'fle', 'feq', 'ilt', 'ile', 'ieq', 'fmin', 'fmax'):
                    for x in t.args:
                        if isinstance(x, float) and math.isfinite(x) and x: pool.add(abs(x))
                        elif isinstance(x, int) and not isinstance(x, bool) and x: ints.add(abs(x)); pool.add(float(abs(x)) if abs(x) < 2**1000 else 1.0)
        return sorted(pool)[:400], sorted(ints)[:400]

    def hunt(self, mod, budget, hints, guided=False):
        """search a failing input on the real code"""
        t = time.time(); n = 0
        hs = list(hints)
        if self.fails or guided:
            try: self.rng.pool, self.rng.ints = self.thresholds()
            except Exception as e: self.notes.append('thresholds: %r' % e)
        if hs:
            try:
                bad = self.judge_all(mod, hs); n += len(hs)
                if bad: return bad[0], n
            except Exception as e: self.notes.append('hint replay: %r' % e)
        size = getattr(mod, 'BATCH', 400)
        k = 0
        while time.time() - t < budget:
            cs = mod.cases(self.rng, size, k); k += 1
            if not cs: break
            n += len(cs)
            bad = self.judge_all(mod, cs)
            if bad: return bad[0], n
            size = min(size * 2, getattr(mod, 'MAXBATCH', 20000))
        return None, n

    def main(self, mod):
        with build.Workdir() as tmp:
            t = time.time()
            rp = {}
            th = threading.Thread(target=lambda: rp.update(self._rp(tmp))); th.start()
            self.mir = build.dump(tmp, getattr(mod, 'TOOLS', False))
            th.join()
            if 'exe' not in rp: raise rp['err']
            self.replay = Replay(rp['exe'])
            if getattr(mod, 'TOOLS', False): self.replay = mod.ToolReplay(self.replay, build.tools(tmp))
            self.build_s = time.time() - t
            def stop(*a): raise TimeUp('time limit of the proof')
            signal.signal(signal.SIGALRM, stop); signal.alarm(PROVE.get(self.tier, 600))
            self.mod = mod
            try:
                mod.prove(self)
            except Found: pass
            except Exception as e:
                # whatever form the code has taken, no verdict is a failed obligation
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.record('verification conditions can be generated from the current source', 'vc-generator', False, 0, '%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            finally: signal.alarm(0)
            t = time.time()
            try: n, bad = (0, []) if self.found else xcheck.run(self, mod)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]; n, bad = 0, ['%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)]
            self.xchecked = n
            for b in [] if self.found else bad[:5] or [None]: self.record('self-check: the verification conditions evaluate to what the compiled code returns (%d evaluations)' % n, 'vc-generator', b is None, time.time() - t, b)
            if not self.obs: self.record('at least one obligation', 'vc-generator', False, 0, 'nothing was generated')
            failed = bool(self.fails)
            budget = getattr(mod, 'HUNT', 60) if failed else getattr(mod, 'SAMPLE', 3)
            if self.tier == 'thorough': budget *= 5
            found, n = (self.found, 0) if self.found else self.hunt(mod, budget, self.hints)
            n = self.replayed = self.replayed + n
            known = self.known()
            verdict = 0
            if found or failed:
                verdict = 1
                path = self.write_replay(found)
                self.evidence(mod, 1)
                for f in self.fails[:20]: print('FAILED-OBLIGATION: %s [%s] %s' % (f['obligation'], f['back_end'], f['output'][:300]))
                if found:
                    print('failing input: %s -> %s: %s' % (show_case(found[0]), found[1], found[2]))
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                else: print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, path))
            else:
                self.evidence(mod, 0)
                print('%s: %d obligations discharged, %d replayed inputs agree, %.1f s' % (self.pid, len(self.obs), n, time.time() - self.t0))
            return verdict

    def _rp(self, tmp):
        try: return {'exe': build.replay_bin(tmp)}
        except Exception as e: return {'err': e}

    def known(self): return []

    def write_replay(self, found):
        d = os.path.join(ROOT, 'evidence', 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        r = {'property': self.pid, 'failed_obligations': self.fails}
        if found:
            cs, o, m = found
            r['input'] = show_case(cs)
            r['input_line'] = ' '.join([cs[0]] + ['%016x' % bits(a) if isinstance(a, float) else str(a) for a in cs[1]])
            r['real_output'] = repr(o); r['what_is_wrong'] = m
            r['how_to_replay'] = 'cd /repo && CARGO_TARGET_DIR=/tmp/tools cargo run --offline -q -p tofas_extras --example ' + ' '.join(str(a) for a in cs[1]) if cs[0] == 'tool' else 'cd /verif/replay && echo "<input_line>" | CARGO_TARGET_DIR=/tmp/replay cargo run --offline -q'
        else: r['input'] = None; r['note'] = 'no failing input found; the verifier output of the failed obligations is above'
        json.dump(r, open(path, 'w'), indent=1)
        return path

    def evidence(self, mod, violations):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        by = {}
        for o in self.obs:
            b = by.setdefault(o['back_end'], {'obligations': 0, 'discharged': 0, 'seconds': 0.0})
            b['obligations'] += 1; b['discharged'] += o['ok']; b['seconds'] = round(b['seconds'] + o['s'], 3)
        level = getattr(mod, 'LEVEL', 'proof')
        cov = {
            'obligations': len(self.obs), 'discharged': sum(o['ok'] for o in self.obs),
            'checker_cmd': 'python3-vt /verif/check.py ' + self.pid,
            'trusted_base': sorted(set(getattr(mod, 'TRUSTED', [])) | self.trusted | set(BASE)),
            'back_ends': by,
            'functions_under_contract': sorted(f for f, k in self.functions.items() if k == 'contract'),
            'functions_inlined': sorted(f for f, k in self.functions.items() if k != 'contract'),
            'callee_contracts_used': sorted(getattr(self, 'used_contracts', [])),
            'vacuity_checks': self.vacuity,
            'obligation_list': self.obs[:400],
            'replayed_inputs_real_code': self.replayed, 'vc_generator_evaluations_against_compiled_code': self.xchecked,
            'build_s': round(self.build_s, 2),
            'bounded_not_proved': self.bounded, 'notes': self.notes,
        }
        if level != 'proof': cov['explanation'] = getattr(mod, 'EXPLAIN', mod.__doc__ or '')
        json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                   'violations': violations, 'wall_s': round(time.time() - self.t0, 2)}, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)

BE_EXACT = 'exact-real domain with symbolic rounding bounds'
BE_IDEAL = 'exact-real domain with rounding bounds'
BASE = [
    'rustc nightly front end and its MIR (opt-level 0, overflow and debug assertions on) agree with the compiled crate on the values computed',
    'the VC generator /verif/driver + /verif/vf/exec.py (symbolic execution of the MIR; its symbolic results are instantiated at concrete inputs and compared bit for bit with the compiled functions on every run)',
    'IEEE-754 binary64 round-to-nearest arithmetic by the target',
]

def fmt(v):
    if isinstance(v, Q) and v.denominator != 1:
        try: return repr(float(v))
        except OverflowError: return str(v)
    return str(v)

def zmodel(Zi, m):
    import z3
    out = {}
    for k, v in Zi.vars.items():
        x = m.eval(v, model_completion=True)
        if z3.is_int_value(x): out[k] = x.as_long()
        elif z3.is_rational_value(x): out[k] = Q(x.numerator_as_long(), x.denominator_as_long())
        elif z3.is_algebraic_value(x):
            y = x.approx(30); out[k] = Q(y.numerator_as_long(), y.denominator_as_long())
        elif z3.is_true(x): out[k] = True
        elif z3.is_false(x): out[k] = False
    return out

def fl(m, k):
    """double nearest to the model value of float variable k"""
    if m.get(k + '.nan'): return math.nan
    v = m[k]
    if v >= 2**1024: return math.inf
    if v <= -2**1024: return -math.inf
    return float(v)

def leaves(v):
    """scalar components of a Python value, in order"""
    if isinstance(v, dict): v = list(v.values())
    if isinstance(v, (list, tuple)): return [x for y in v for x in leaves(y)]
    return [v]
