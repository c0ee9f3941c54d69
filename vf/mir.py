"""Loads the JSON MIR written by the driver."""
import json

class CB:
    """bytes of a constant allocation"""
    __slots__ = ('b', 'un', 'p')
    def __init__(self, j):
        h = j['b']
        if '__' in h:
            n = len(h) // 2
            self.un = {i for i in range(n) if h[2*i:2*i+2] == '__'}
            h = h.replace('__', '00')
        else: self.un = None
        self.b = bytes.fromhex(h)
        self.p = {o: a for o, a in j['p']}

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.fns = {f['id']: f for f in d['fns']}
        self.roots = d['roots']
        self.allocs = d['allocs']
        self.bypath = {}
        for f in d['fns']:
            self.bypath.setdefault(f['name'], []).append(f)
        self._cb = {}
        self._flat = {}
        self._ipdom = {}; self._loops = {}
        self._ckb = {}

    def alloc(self, i):
        c = self._cb.get(i)
        if c is None:
            j = self.allocs[i]
            if 'fn' in j: c = ('FN', j['fn'])
            elif 'b' in j: c = CB(j)
            else: c = ('OTHER', j.get('other'))
            self._cb[i] = c
        return c

    def find(self, name):
        """Function by exact printed name."""
        l = self.bypath.get(name)
        if not l or len(l) != 1: raise LookupError('function %s: %s' % (name, 'not found' if not l else 'ambiguous'))
        return l[0]

    def has(self, name): return name in self.bypath and len(self.bypath[name]) == 1

    def size(self, t): return self.types[t].get('size', 0)

    def is_fat(self, t):
        T = self.types[t]
        return T['k'] in ('ptr', 'ref') and T.get('size') == 16

    def is_scalar(self, t):
        k = self.types[t]['k']
        if k in ('bool', 'int', 'float', 'char', 'fnptr'): return True
        if k in ('ptr', 'ref'): return self.types[t].get('size') == 8
        if k == 'pat': return self.is_scalar(self.types[t]['elem'])
        return False

    def flat(self, t):
        """[(offset, type of scalar leaf)]; enum payloads of all variants."""
        r = self._flat.get(t)
        if r is not None: return r
        T = self.types[t]; k = T['k']; r = []
        if T.get('size', 0) == 0: r = []
        elif self.is_scalar(t): r = [(0, t)]
        elif k in ('ptr', 'ref'): r = [(0, 'ptr'), (8, 'usize')]
        elif k == 'array':
            f = self.flat(T['elem']); n = self.size(T['elem'])
            r = [(i * n + o, x) for i in range(T['len']) for o, x in f]
        elif k in ('tuple', 'closure'):
            r = [(o + o2, x) for ft, o in zip(T['fields'], T['offs']) for o2, x in self.flat(ft)]
        elif k == 'adt':
            if T['ak'] == 'Union': r = [(0, ('raw', T['size']))]
            else:
                s = {}
                tg = T.get('tag')
                for v in T['variants']:
                    for ft, o in zip(v['fields'], v['offs']):
                        for o2, x in self.flat(ft): s.setdefault(o + o2, x)
                # the tag may lie in a niche of a payload (values that the payload's type does not have)
                if tg and (tg['off'] not in s or not tg['ptr']): s[tg['off']] = ('tag', tg['size'])
                r = sorted(s.items(), key=lambda z: z[0])
        elif k == 'pat': r = self.flat(T['elem'])
        else: raise NotImplementedError('flat ' + T['name'])
        self._flat[t] = r
        return r

    def succs(self, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'assert': return [t[4]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'drop': return [t[2]]
        return []

    def loops(self, fid):
        """block -> heads of the loops it is in"""
        r = self._loops.get(fid)
        if r is not None: return r
        bl = self.fns[fid]['body']['blocks']; succ = [self.succs(b['t']) for b in bl]
        pred = [[] for _ in bl]
        for i, s in enumerate(succ):
            for x in s: pred[x].append(i)
        back = []; state = {0: 1}; stack = [(0, iter(succ[0]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if state.get(y) == 1: back.append((x, y))
                elif y not in state: state[y] = 1; stack.append((y, iter(succ[y]))); break
            else: state[x] = 2; stack.pop()
        r = {}
        for t, h in back:
            seen = {h, t}; st = [t]
            while st:
                x = st.pop()
                if x == h: continue
                for p in pred[x]:
                    if p not in seen: seen.add(p); st.append(p)
            for x in seen: r.setdefault(x, set()).add(h)
        self._loops[fid] = r
        return r

    def ipdom(self, fid):
        """Immediate post-dominator of each block (None = function exit),
        over the blocks that can reach a return."""
        r = self._ipdom.get(fid)
        if r is not None: return r
        bl = self.fns[fid]['body']['blocks']; n = len(bl); EXIT = n
        succ = [self.succs(b['t']) for b in bl]
        for i, b in enumerate(bl):
            if b['t'][0] == 'return': succ[i] = [EXIT]
        pred = [[] for _ in range(n + 1)]
        for i, s in enumerate(succ):
            for x in s: pred[x].append(i)
        live = {EXIT}; st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live: live.add(p); st.append(p)
        # order: reverse post-order on the reversed graph
        order = []; seen = set()
        def dfs(x):
            stack = [(x, iter(pred[x]))]; seen.add(x)
            while stack:
                y, it = stack[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    order.append(y); stack.pop()
        dfs(EXIT); order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == EXIT: continue
                new = None
                for s in succ[b]:
                    if s in idom and s in num:
                        if new is None: new = s
                        else:
                            a, c = new, s
                            while a != c:
                                while num[a] > num[c]: a = idom[a]
                                while num[c] > num[a]: c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        r = {b: (None if i == EXIT else i) for b, i in idom.items() if b != EXIT}
        self._ipdom[fid] = r
        return r
