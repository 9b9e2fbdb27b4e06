"""Ordering (C07, C08): every execution of a small generated program that the processor's memory model allows, against C11.

The operations' own instructions are interpreted one operation at a time with every value a read could return; the memory
events they perform (reads, writes, fences, acquire and release marks, conditional branches) form candidate executions,
which a multi-copy-atomic axiomatic model accepts or rejects. The model is nowhere weaker than the architectures: what it
allows, they allow. An accepted execution that contradicts happens-before (or, with SeqCst operations only, every
interleaving) is a violation."""
import itertools
from core import *
import checks
from checks import Verdict, model

LIMIT = 700
class WMem(Mem):
    def __init__(self, end, cell, off, size, cand):
        super().__init__(end)
        self.cell, self.off, self.size, self.cand = cell, off, size, cand
        self.choice, self.k, self.ev, self.last, self.alts = [], 0, [], None, []
        self.region = self.add(0, cell, 'cell')
    def pick(self):
        if self.k < len(self.choice):
            i = self.choice[self.k]
        else:
            i = 0
            self.choice.append(0)
        self.k += 1
        return self.cand[i]
    def shared(self, a):
        return self.region.lo <= a < self.region.hi
    def part(self, v, a, n):
        o, s = self.off, self.size
        b = self.cell[:o] + v.to_bytes(s, self.end) + self.cell[o + s:]
        q = a - self.region.lo
        if q < 0 or q + n > len(b):
            raise Fault('outside')
        return int.from_bytes(b[q:q + n], self.end)
    def whole(self, a, n):
        q = a - self.region.lo
        return q <= self.off and q + n >= self.off + self.size
    def value(self, a, n, x):
        """the value after a write of x, or None when it is partial or changes other bytes"""
        if not self.whole(a, n):
            raise Unmodelled('partial write')
        q = a - self.region.lo
        b = (x & (1 << 8 * n) - 1).to_bytes(n, self.end)
        o = self.off - q
        if b[:o] != self.cell[q:self.off] or b[o + self.size:] != self.cell[self.off + self.size:q + n]:
            raise Unmodelled('write to neighbours')
        return int.from_bytes(b[o:o + self.size], self.end)
    def overlaps(self, a, n):
        q = a - self.region.lo
        return q < self.off + self.size and self.off < q + n
    def rd(self, t, a, n, at=None, tag=None):
        if not self.shared(a):
            return super().rd(t, a, n)
        if not self.overlaps(a, n):
            return self.part(0, a, n)
        v = self.pick()
        self.ev.append(['R', v, tag or '', None])
        return self.part(v, a, n)
    def wr(self, t, a, n, v, tag=None):
        if not self.shared(a):
            return super().wr(t, a, n, v)
        self.ev.append(['W', self.value(a, n, v), tag or '', None])
    def ll(self, t, a, n, tag=None, half=None):
        if not self.shared(a):
            raise Unmodelled('load-linked of private memory')
        if half and half[0]:
            if t.res is None:
                raise Unmodelled('half')
            return self.part(self.ev[t.res[2]][1], a + half[0], half[1])
        v = self.pick()
        t.res = (a, n, len(self.ev))
        self.ev.append(['R', v, tag or '', None])
        return self.part(v, a, half[1] if half else n)
    def sc(self, t, a, n, v, tag=None):
        r, t.res = t.res, None
        if r is None or r[:2] != (a, n):
            return False
        self.ev.append(['W', self.value(a, n, v), tag or '', r[2]])
        return True
    def rmw(self, t, a, n, f, tag=None):
        if not self.shared(a):
            raise Unmodelled('read-modify-write of private memory')
        v = self.pick()
        i = len(self.ev)
        self.ev.append(['R', v, tag or '', None])
        o = self.part(v, a, n)
        x = f(o)
        if x is not None:
            self.ev.append(['W', self.value(a, n, x), tag or '', i])
        if t.arch.tso:
            for e in self.ev[i:]:
                e[2] += 'F'
        return o
    def fence(self, t, kind):
        self.ev.append(['F', kind, '', None])

def opruns(w, name, va, vb, cell, off, cand):
    """[(events, result, ok)] of one operation for every sequence of values its reads could return"""
    key = (name, va, vb, off, tuple(cand))
    c = w.__dict__.setdefault('weakcache', {})
    if key in c:
        return c[key]
    fn, arch = w.fns[name], w.arch
    out, choice = [], []
    base = 0x10000 if arch.word > 2 else 0x400
    while True:
        m = WMem(arch.end, cell, off, fn.size, cand)
        m.region.lo, m.region.hi = base, base + len(cell)
        m.choice = choice
        r = checks.Run.__new__(checks.Run)
        r.w, r.case, r.mem, r.threads, r.base, r.stride = w, dict(noise=1), m, [], base, 0x4000
        t = r.thread(0, fn, base + off, va, vb)
        done = True
        try:
            while not t.done:
                t.step()
                if t.steps > LIMIT or m.k > 4:
                    done = False
                    break
        except Fault:
            done = False
        if done:
            b = t.args.b
            res = int.from_bytes(b[checks.A_OUT:checks.A_OUT + fn.size], arch.end)
            ev = [tuple(e) for e in m.ev]
            # fences and branches that come twice say nothing new
            out.append((ev, res, b[checks.A_OK] == 1))
        # next sequence of choices
        choice = m.choice[:m.k]
        while choice and choice[-1] == len(cand) - 1:
            choice.pop()
        if not choice:
            break
        choice[-1] += 1
        if len(out) > 200:
            raise Unmodelled('too many runs')
    if len(c) > 20000:
        c.clear()
    c[key] = out
    return out

def runs(w, case, op, cand):
    """[(events, node)]; node = (read?, written value or None, acquire, release, SeqCst, result)"""
    k = op['k']
    if k in ('W', 'R'):      # plain
        if k == 'W':
            return [([('W', op['v'], '', None)], (False, op['v'], 0, 0, 0, None))]
        return [([('R', v, '', None)], (True, None, 0, 0, 0, v)) for v in cand]
    if k in ('sW', 'sR'):    # a partner that is ordered with everything
        f = ('F', [('RW', 'RW')], '', None)
        if k == 'sW':
            return [([f, ('W', op['v'], '', None), f], (False, op['v'], 0, 1, 1, None))]
        return [([f, ('R', v, '', None), f], (True, None, 1, 0, 1, v)) for v in cand]
    l = case['locs'][op['l']]
    fn = w.fns[op['fn']]
    out = []
    for ev, res, ok in opruns(w, op['fn'], op['a'], op['b'], bytes.fromhex(l['cell']), l['off'], cand):
        reads = fn.op != 'store'
        if fn.op == 'load':
            wv = None
        elif fn.op in ('store', 'swap'):
            wv = op['a']
        elif fn.op == 'fu':
            wv = res ^ op['a'] if ok else None
        else:
            wv = op['b'] if ok else None
        o = fn.ords
        if fn.op in ('cas', 'weak', 'fu', 'fc'):
            rd = o[0] if wv is not None else o[1]
            sc = o == 'ss'
        else:
            rd, sc = o, o == 's'
        out.append((ev, (reads, wv, rd in 'axs', wv is not None and o[0] in 'lxs', sc, res)))
    return out

def closure(m, n):
    for k in range(n):
        b = 1 << k
        mk = m[k]
        for i in range(n):
            if m[i] & b:
                m[i] |= mk
    return m
def cyclic(m, n):
    closure(m, n)
    return any(m[i] >> i & 1 for i in range(n))

def local(arch, evs):
    """order within one thread: list of (i, j) over the thread's memory events; evs = [(kind, value or fence, tag, rmw, loc)]"""
    out = []
    n = len(evs)
    both = getattr(arch, 'amo_both', False)
    for i in range(n):
        a = evs[i]
        if a[0] not in 'RW':
            continue
        branch = isync = False
        reach = set()
        for j in range(i + 1, n):
            b = evs[j]
            if b[0] == 'F':
                k = b[1]
                if k == 'branch':
                    branch = True
                elif k == 'isync':
                    if branch and a[0] == 'R':
                        isync = True
                else:
                    for x, y in k:
                        if a[0] in x:
                            reach |= set(y)
                continue
            at, bt = a[2], b[2]
            if arch.tso and not (a[0] == 'W' and b[0] == 'R') or b[0] in reach or isync or 'F' in at or 'F' in bt \
               or (a[0] == 'R' or both) and ('A' in at or 'Q' in at) or (b[0] == 'W' or both) and 'L' in bt \
               or 'L' in at and 'A' in bt and (a[0] == 'W' or both) and b[0] == 'R' or a[0] == 'R' and b[0] == 'W' and branch \
               or b[0] == 'W' and a[4] == b[4] or a[0] == b[0] == 'R' and a[4] == b[4] or b[3] is not None and b[3] == i:
                out.append((i, j))
    return out

def search(w, case, prop):
    """The message of a violation or None, and the number of executions looked at."""
    arch = w.arch
    L = case['locs']
    # values each location could hold
    cand = [[l['init']] for l in L]
    for _ in range(4):
        new = [list(c) for c in cand]
        for th in case['threads']:
            for op in th:
                for ev, _ in runs(w, case, op, cand[op['l']]):
                    for e in ev:
                        if e[0] == 'W' and e[1] not in new[op['l']]:
                            new[op['l']].append(e[1])
        if new == cand:
            break
        cand = new
        if max(map(len, cand)) > 6:
            raise Unmodelled('too many values')
    ops = [(ti, op) for ti, th in enumerate(case['threads']) for op in th]
    per = [runs(w, case, op, cand[op['l']]) for _, op in ops]
    # runs of a retried loop last: the fewer of them the more operations there are
    def product(q):
        size = 1
        for p in q:
            size *= max(1, len(p))
        return size
    def nreads(r):
        return sum(1 for e in r[0] if e[0] == 'R')
    for cap in (4, 3, 2, 1):
        if product(per) <= 6000:
            break
        low = [min((nreads(r) for r in p), default=0) for p in per]
        per = [[r for r in p if nreads(r) <= max(lo, cap)] for p, lo in zip(per, low)]
    if product(per) > 60000:
        raise Unmodelled('too many combinations')
    nth = len(case['threads'])
    count = 0
    lcache = {}
    for combo in itertools.product(*per):
        # events: initial writes first
        E = [('W', l['init'], '', None, k, -1, -1) for k, l in enumerate(L)]   # kind value tag rmw loc thread op
        writes = [[k] for k in range(len(L))]
        thr = [[] for _ in range(nth)]
        for oi, ((ti, op), (ev, node)) in enumerate(zip(ops, combo)):
            base = len(E)
            local_index = {}
            for q, e in enumerate(ev):
                if e[0] == 'F':
                    thr[ti].append(('F', e[1], '', None, -1, -1))
                else:
                    g = len(E)
                    local_index[q] = g
                    E.append((e[0], e[1], e[2], local_index.get(e[3]) if e[3] is not None else None, op['l'], ti, oi))
                    if e[0] == 'W':
                        writes[op['l']].append(g)
                    thr[ti].append((e[0], e[1], e[2], E[g][3], op['l'], g))
        have = [set(E[x][1] for x in ws) for ws in writes]
        reads = [i for i, e in enumerate(E) if e[0] == 'R']
        if any(E[i][1] not in have[E[i][4]] for i in reads):
            continue
        srcs = [[x for x in writes[E[i][4]] if E[x][1] == E[i][1]] for i in reads]
        # po-earlier sources only within the thread (a read cannot read a later write of its own thread)
        srcs = [[x for x in s if not (E[x][5] == E[i][5] and x > i)] for i, s in zip(reads, srcs)]
        if any(not s for s in srcs):
            continue
        key = None
        cos = []
        for ws in writes:
            perm = []
            for p in itertools.permutations(ws[1:]):
                pos = {x: k for k, x in enumerate(p)}
                if all(pos[x] < pos[y] for x in p for y in p if E[x][5] == E[y][5] and x < y):
                    perm.append((ws[0],) + p)
            cos.append(perm)
        lob = None
        for rf in itertools.product(*srcs):
            rfm = dict(zip(reads, rf))
            for co in itertools.product(*cos):
                count += 1
                if count > 40000:
                    raise Unmodelled('too many executions')
                pos = {}
                for c in co:
                    for k, x in enumerate(c):
                        pos[x] = k
                # atomicity: nothing between the source of an exclusive read and its write
                if any(e[0] == 'W' and e[3] is not None and pos[rfm[e[3]]] + 1 != pos[i] for i, e in enumerate(E)):
                    continue
                v = c11(case, ops, combo, E, rfm, co, pos, prop)
                if not v:
                    continue
                n = len(E)
                # coherence per location
                m = [0] * n
                obs = [0] * n
                for c in co:
                    for x, y in zip(c, c[1:]):
                        m[x] |= 1 << y
                        if E[x][5] != E[y][5]:
                            obs[x] |= 1 << y
                    # transitive pairs matter for external edges
                    for a, b in itertools.combinations(c, 2):
                        if E[a][5] != E[b][5]:
                            obs[a] |= 1 << b
                for r, s in rfm.items():
                    m[s] |= 1 << r
                    if E[s][5] != E[r][5]:
                        obs[s] |= 1 << r
                    c = co[E[r][4]]
                    for y in c[pos[s] + 1:]:
                        m[r] |= 1 << y
                        if E[y][5] != E[r][5]:
                            obs[r] |= 1 << y
                    # an exclusive write read by an acquire of the same thread
                    if E[s][5] == E[r][5] and E[s][3] is not None and ('A' in E[r][2] or 'Q' in E[r][2]):
                        obs[s] |= 1 << r
                for ti in range(nth):
                    es = [x for x in thr[ti] if x[0] != 'F']
                    for a, b in itertools.combinations(es, 2):
                        if a[4] == b[4]:
                            m[a[5]] |= 1 << b[5]
                if cyclic(m, n):
                    continue
                if lob is None:
                    lob = []
                    for ti in range(nth):
                        evs = thr[ti]
                        g = [x[5] if x[0] != 'F' else None for x in evs]
                        # rmw links are global indexes: make them local
                        loc = [(x[0], x[1], x[2], g.index(x[3]) if x[3] is not None else None, x[4]) for x in evs]
                        lob += [(g[i], g[j]) for i, j in local(arch, loc)]
                for a, b in lob:
                    obs[a] |= 1 << b
                if cyclic(obs, n):
                    continue
                return describe(w, case, ops, combo, v), count
    return None, count

def c11(case, ops, combo, E, rfm, co, pos, prop):
    """Why the execution contradicts the language's model, or None."""
    n = len(ops)
    # op-level reads-from and write
    wr, rd, silent = [None] * n, [None] * n, {}
    for i, e in enumerate(E):
        if e[6] < 0:
            continue
        if e[0] == 'R':
            rd[e[6]] = i
        elif combo[e[6]][1][1] is None:
            silent[i] = e[3]      # a load that writes back what it read
        else:
            if wr[e[6]] is not None:
                return None
            wr[e[6]] = i
    def source(x):
        while x in silent:
            if silent[x] is None:
                return None
            x = rfm[silent[x]]
        return x
    src = [None] * n
    for o in range(n):
        if combo[o][1][0]:
            if rd[o] is None:
                return None
            src[o] = source(rfm[rd[o]])
            if src[o] is None:
                return None
    nl = len(case['locs'])
    owner = {wr[o]: o for o in range(n) if wr[o] is not None}
    order = [[x for x in c if x not in silent] for c in co]
    p = {x: k for c in order for k, x in enumerate(c)}
    loc = [op['l'] for _, op in ops]
    ti = [t for t, _ in ops]
    # hb = (sb u sw)+
    hb = [0] * n
    for a in range(n):
        for b in range(a + 1, n):
            if ti[a] == ti[b]:
                hb[a] |= 1 << b
    sb = list(hb)
    for b in range(n):
        if src[b] is None or not combo[b][1][2]:
            continue
        x, steps = src[b], 0
        while x in owner and steps < n:
            a = owner[x]
            if combo[a][1][3] and a != b:
                hb[a] |= 1 << b
            if src[a] is None:     # not a read-modify-write: the release sequence starts here
                break
            x = src[a]
            steps += 1
    eco = [0] * n
    for a in range(n):
        for b in range(n):
            if a == b or loc[a] != loc[b]:
                continue
            wa, wb = wr[a], wr[b]
            if wa is not None and wb is not None and p[wa] < p[wb] or wa is not None and src[b] == wa \
               or src[a] is not None and wb is not None and p[src[a]] < p[wb]:
                eco[a] |= 1 << b
    if prop == 'C08' and all(combo[o][1][4] for o in range(n)):
        m = [sb[i] | eco[i] for i in range(n)]
        if cyclic(m, n):
            return 'SeqCst operations only, but no interleaving of them explains this'
        return None
    if prop == 'C08':
        return None
    closure(hb, n)
    closure(eco, n)
    for a in range(n):
        for b in range(n):
            if hb[a] >> b & 1 and eco[b] >> a & 1:
                return a, b
    return None

def show(case, op):
    n = 'xyzuvw'[op['l']]
    if op['k'] in ('W', 'R'):
        return f'plain write {n}={op["v"]:#x}' if op['k'] == 'W' else f'plain read {n}'
    if op['k'] in ('sW', 'sR'):
        return f'fully fenced write {n}={op["v"]:#x}' if op['k'] == 'sW' else f'fully fenced read {n}'
    c = op['fn'].split('_')[0]
    return f'{op["fn"]}({n}' + {'load': '', 'store': f', {op["a"]:#x}', 'swap': f', {op["a"]:#x}', 'fu': f', ^{op["a"]:#x}'}.get(c, f', {op["a"]:#x}, {op["b"]:#x}') + ')'

def describe(w, case, ops, combo, v):
    th = {}
    for (t, op), (_, node) in zip(ops, combo):
        th.setdefault(t, []).append(show(case, op) + (f' -> {node[5]:#x}' if node[0] else '') + ('' if not node[0] or 'fn' not in op or w.fns[op['fn']].op not in ('cas', 'weak', 'fc') else ' ok' if node[1] is not None else ' failed'))
    s = ' || '.join('; '.join(x) for _, x in sorted(th.items()))
    init = ', '.join(f'{"xyzuvw"[k]}={l["init"]:#x}' for k, l in enumerate(case['locs']))
    if isinstance(v, str):
        return f'{v}: initially {init}: {s}'
    a, b = (show(case, ops[i][1]) for i in v)
    return f'the memory model of the processor allows (initially {init}): {s}; but "{a}" happens before "{b}" and is not visible to it'

# ---------------------------------------------------------------- generation
def loc(rng, w, size, init=0):
    cell, off = checks.place(rng, w.arch, size)
    cell = cell[:max(16, w.arch.container, size)] if off + size <= 16 else cell
    cell = checks.put(cell, off, size, init, w.arch.end)
    return dict(cell=cell.hex(), off=off, size=size, init=init)

def can(f):
    """(release as a writer, acquire on success or plain read, acquire on failure)"""
    o = f.ords
    if f.op == 'load':
        return False, o in 'as', False
    if f.op == 'store':
        return o in 'ls', False, False
    if f.op == 'swap':
        return o in 'lxs', o in 'axs', False
    return o[0] in 'lxs', o[0] in 'axs', o[1] in 'as'

def call(f, l, cur, v, fail=False):
    """the call of f that turns cur into v at location l (a failing one expects something else)"""
    n = f.name
    if f.op == 'load':
        return dict(k='op', l=l, fn=n, a=0, b=0)
    if f.op in ('store', 'swap'):
        return dict(k='op', l=l, fn=n, a=v, b=0)
    if f.op == 'fu':
        return dict(k='op', l=l, fn=n, a=cur ^ v, b=0)
    return dict(k='op', l=l, fn=n, a=(cur ^ 5 if fail else cur), b=v)

def queue(rng, w, names, prop):
    """every function in every role, in random order"""
    fs = [w.fns[n] for n in names if not w.fns[n].p]
    seen, out = set(), []
    def add(f, *roles):
        # the same machine code in the same role once
        for r in dict.fromkeys(roles):
            k = (f.sec, f.pc, f.op, f.size, r)
            if k not in seen:
                seen.add(k)
                out.extend([(f.name, r)] * roles.count(r))
    rng.shuffle(fs)
    for f in fs:
        rel, acq, facq = can(f)
        if prop == 'C07':
            add(f, *['rel'] * 3 * rel, *['acq'] * 2 * acq, *['facq'] * 2 * (facq and f.op != 'fu'), *['late'] * 2 * (facq and f.op == 'fc'), *['seq'] * (f.op in ('swap', 'cas', 'weak', 'fu', 'fc')))
        elif f.ords in ('s', 'ss'):
            add(f, 'first', 'first', 'second', 'second', 'any', 'any', *['ffirst', 'fsecond'] * (f.op in ('cas', 'weak', 'fc')))
    rng.shuffle(out)
    return out

def gen(rng, w, names, prop):
    q = w.__dict__.setdefault('queue' + prop, [])
    if not q:
        q += queue(rng, w, names, prop)
    by = w.__dict__.setdefault('byord' + prop, None)
    if by is None:
        by = {'rel': [], 'acq': [], 'rlx': [], 'sc': []}
        for n in names:
            f = w.fns[n]
            if f.p:
                continue
            rel, acq, _ = can(f)
            if rel:
                by['rel'].append(f)
            if acq:
                by['acq'].append(f)
            if f.op in ('load', 'store') and f.ords == 'r':
                by['rlx'].append(f)
            if f.ords in ('s', 'ss'):
                by['sc'].append(f)
        w.__dict__['byord' + prop] = by
    if not q:
        return None
    name, role = q.pop()
    f = w.fns[name]
    def data(k, l, v=0):
        """a plain access or a relaxed operation"""
        c = [g for g in by['rlx'] if g.op == ('load' if k == 'R' else 'store') and g.size == sz[l]]
        if c and rng.random() < 0.4:
            return call(rng.choice(c), l, 0, v)
        return dict(k=k, l=l, v=v)
    same = lambda c, n: [g for g in c if g.size == n]
    any_size = rng.choice([x for x in (1, 2, 4, 8, 16) if x <= max(g.size for g in map(w.fns.get, names)) and any(w.fns[n].size == x for n in names)])
    sz = [any_size, f.size, any_size]
    one = lambda l: 1 << rng.randrange(8 * sz[l])
    if prop == 'C07':
        L = [loc(rng, w, any_size), loc(rng, w, f.size)]
        d, y = one(0), one(1)
        kind = rng.choice(['R', 'R', 'W', 'Rw'])
        pre = data('R', 0) if kind == 'Rw' else data('W', 0, d)
        post = data('R', 0) if kind == 'R' else data('W', 0, d if kind == 'Rw' else d ^ 3)
        if role == 'rel':
            p = rng.choice(same(by['acq'], f.size) or [None]) if rng.random() < 0.3 else None
            T = [[pre, call(f, 1, 0, y)], [call(p, 1, y, y ^ 3) if p else dict(k='sR', l=1), post]]
        elif role in ('acq', 'facq', 'late'):
            fail = role == 'facq'
            p = rng.choice(same(by['rel'], f.size) or [None]) if rng.random() < 0.3 else None
            T = [[pre, call(p, 1, 0, y) if p else dict(k='sW', l=1, v=y)], [call(f, 1, 0 if role == 'late' else y, y ^ 3, fail), post]]     # late: accepts the initial value, rejects the released one that turns up meanwhile
        else:
            T = [[pre, dict(k='sW', l=1, v=y)], [call(f, 1, y, y ^ 3)], [dict(k='sR', l=1), post]]
        return dict(part='weak', prop=prop, locs=L, threads=T, role=role)
    if role == 'any':
        # everything real
        L = [loc(rng, w, f.size), loc(rng, w, any_size)]
        sz = [f.size, any_size]
        T = []
        for i in range(2):
            a = f if i == 0 else rng.choice(same(by['sc'], sz[1]) or [f])
            if i and a.size != sz[1]:
                return gen(rng, w, names, prop)
            b = rng.choice(same(by['sc'], sz[1 - i]) or [None])
            if b is None:
                return gen(rng, w, names, prop)
            T.append([call(a, i, 0, 1 + i), call(b, 1 - i, 0, 4 + i, rng.random() < 0.3)])
        return dict(part='weak', prop=prop, locs=L, threads=T, role=role)
    g = rng.choice(by['sc'])
    L = [loc(rng, w, f.size), loc(rng, w, g.size)]
    sz = [f.size, g.size]
    fail = role[0] == 'f' and role in ('ffirst', 'fsecond')
    a, b = call(f, 0, 0, 1, fail), call(g, 1, 0, 2)
    t0 = [a, b] if role.endswith('first') else [b, a]
    order = [1, 0] if role.endswith('first') else [0, 1]
    t1 = [dict(k='sR', l=l) if rng.random() < 0.5 else dict(k='sW', l=l, v=4) for l in order]
    return dict(part='weak', prop=prop, locs=L, threads=[t0, t1], role=role)

def gen7(rng, w, names):
    return gen(rng, w, names, 'C07')
def gen8(rng, w, names):
    return gen(rng, w, names, 'C08')
def run(w, case):
    msg, count = search(w, case, case['prop'])
    if msg:
        raise Verdict((case['prop'],), msg)
    return count > 0
