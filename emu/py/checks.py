"""Generated cases over the interpreted operations: sequential, interleaved, frozen."""
import random, re
from core import *

A_CELL, A_A, A_B, A_OUT, A_OK, A_WA, A_WB, A_EX, A_LEN = 0, 16, 32, 48, 64, 80, 96, 112, 240
KIND = re.compile(r'([pqctskzfn]?)(load|store|swap|cas|weak|fu|fc)_([iu](?:8|16|32|64|128|size))_(\w+)$')
NEX = {8: 16, 4: 20, 2: 10}
SOLO = 600          # instructions an undisturbed operation may take (prologue, 20 spilled words and the operation itself take under 250)

class Fn:
    def __init__(self, name, prog, pc, sec):
        self.name, self.prog, self.pc, self.sec = name, prog, pc, sec
        m = KIND.match(name)
        self.p, self.op, self.ty, self.ords = m.group(1), m.group(2), m.group(3), m.group(4)

class World:
    """All functions of one build, decoded."""
    def __init__(self, arch, elf, dis):
        self.arch = arch
        arch.elf = elf
        secs = parse_dis(dis)
        self.fns, self.unmodelled = {}, {}
        progs = {}
        for name, (sec, off, data) in sorted(functions(elf).items()):
            m = KIND.match(name)
            if not m:
                continue
            if sec not in progs:
                progs[sec] = self.decode(sec, secs.get(sec, []), data)
            f = Fn(name, progs[sec], off & ~1 if getattr(self.arch, 'thumb', False) else off, data)
            f.size = self.tsize(f.ty)
            self.fns[name] = f
        self.secdata = {}
    def tsize(self, ty):
        return self.arch.word if ty.endswith('size') else int(ty[1:]) // 8
    def decode(self, sec, lines, data):
        prog = {}
        self.arch.cursec = sec
        lines = self.arch.group(lines)
        for i, (a, text, rel) in enumerate(lines):
            nxt = lines[i + 1][0] if i + 1 < len(lines) else None
            text = re.sub(r'\s+', ' ', text)
            try:
                ops = self.arch.decode(a, text, rel, data)
                if ops is None:
                    ops = f'no meaning for {text}'
            except Unmodelled as e:
                ops = str(e)
            except (KeyError, ValueError, AttributeError, IndexError, TypeError) as e:
                ops = f'{text} ({type(e).__name__} {e})'
            prog[a] = (ops, nxt)
        # branches with a delay slot take the following instruction in
        for a, (ops, nxt) in list(prog.items()):
            if isinstance(ops, Delayed):
                slot, after = prog.get(nxt, ('no delay slot', None))
                if isinstance(slot, Delayed):
                    slot = 'branch in a delay slot'
                prog[a] = (slot if slot.__class__ is str else with_slot(ops, slot), after)
        prog.update(self.arch.extra())
        return prog

def addresses(arch, rng):
    if arch.word == 8:
        b = rng.choice([0x10000, 0x7f31_8000_0000, 0xffff_8000_1234_0000 if arch.high else 0x7fff_ffff_0000])
    elif arch.word == 4:
        b = rng.choice([0x10000, 0x7ffe0000, 0xc0de0000])
    else:
        b = 0x400
    return b

class Run:
    """Memory and threads of one case."""
    def __init__(self, w, case):
        self.w, self.case, a = w, case, w.arch
        self.mem = Mem(a.end, case.get('gran', 16))
        self.mem.kver = case.get('kver', 5)
        base = case['base']
        sp = 0x40 if a.word == 2 else 0x10000
        self.cell = self.mem.add(base + case.get('page', 0), bytes.fromhex(case['cell']), 'cell', not case.get('ro'))
        self.threads = []
        self.base = base
        # 16-bit machines: keep everything inside 64 KiB
        self.stride = 0x300 if a.word == 2 else 0x4000
    def thread(self, i, fn, addr, va, vb, strict=False):
        a, s, end = self.w.arch, self.stride, self.w.arch.end
        base = self.base + s * (i + 1)
        n = fn.size
        blk = bytearray([self.case.get('fill', 0xa5)]) * A_LEN
        blk[0:a.word] = addr.to_bytes(a.word, end)
        blk[A_A:A_A + n] = va.to_bytes(n, end)
        blk[A_B:A_B + n] = vb.to_bytes(n, end)
        g = random.Random(f"{self.case['noise']}-{i}")
        for o, v in ((A_WA, va), (A_WB, vb)):
            v = (v | g.getrandbits(64) << 8 * n) & ((1 << 8 * a.word) - 1)
            blk[o:o + a.word] = v.to_bytes(a.word, end)
        for k in range(NEX[a.word]):
            o = A_EX + k * a.word
            blk[o:o + a.word] = g.getrandbits(8 * a.word).to_bytes(a.word, end)
        if fn.p == 'f':     # doubles, none of them a NaN
            for o in range(A_EX, A_EX + 128, 8):
                blk[o:o + 8] = (g.getrandbits(64) & ~(1 << 62)).to_bytes(8, end)
        args = self.mem.add(base, blk, f'args{i}')
        stack = self.mem.add(base + 0x140, g.randbytes(0x180 if a.word == 2 else 0x800), f'stack{i}')
        t = Thread(i, self.mem, a, fn.prog, fn.pc, a.nreg)
        for k in range(a.nreg):
            t.r[k] = g.getrandbits(a.bits)
        sp = stack.hi - a.redzone
        a.start(t, base, sp)
        t.saved = [(k, t.r[k]) for k in a.callee]
        t.fn, t.args, t.addr, t.ex0 = fn, args, addr, bytes(blk)
        t.strict = strict
        t.sec = fn.sec
        self.mem.threads.append(t)
        self.threads.append(t)
        return t
    def finish(self, t):
        """(result value, ok flag) and the list of calling-convention violations"""
        a, n = self.w.arch, t.fn.size
        bad = []
        for k, v in t.saved:
            if t.r[k] != v:
                bad.append(f'register {a.rname(k)} is {t.r[k]:#x} at return, was {v:#x}')
        bad += a.at_return(t)
        b = t.args.b
        out = int.from_bytes(b[A_OUT:A_OUT + n], a.end)
        if t.fn.op in ('cas', 'weak', 'fu', 'fc') and b[A_OK] > 1:
            raise Verdict(('C02', 'C01') if t.fn.op[0] != 'f' else ('C10', 'C01'), f'{t.fn.name} reports success as the byte {b[A_OK]:#x}, which is no bool')
        if t.fn.p == 'p':
            m = (1 << 8 * a.word) - 1
            e = [int.from_bytes(t.ex0[A_EX + k * a.word:A_EX + (k + 1) * a.word], a.end) for k in range(NEX[a.word])]
            want = [e[2] if e[0] < e[1] else e[3], e[1]] + [x + 1 & m for x in e[2:]]
            got = [int.from_bytes(b[A_EX + k * a.word:A_EX + (k + 1) * a.word], a.end) for k in range(NEX[a.word])]
            for k, (x, y) in enumerate(zip(got, want)):
                if x != y:
                    bad.append(f'a value held across the operation changed: word {k} is {x:#x}, should be {y:#x}')
                    break
        if t.fn.p == 'f':
            e, got = [[bytes(x[o:o + 8]) for o in range(A_EX, A_EX + 8 * a.doubles, 8)] for x in (t.ex0, b)]
            for k, (x, y) in enumerate(zip(e[::-1], got)):
                if x != y:
                    bad.append(f'a double held across the operation changed: number {k} is {y.hex()}, should be {x.hex()}')
                    break
        return out, bool(b[A_OK]), bad

def model(op, cur, va, vb, size):
    """(new value, result, ok)"""
    if op == 'load':
        return cur, cur, None
    if op == 'store':
        return va, None, None
    if op == 'swap':
        return va, cur, None
    if op in ('cas', 'weak', 'fc'):
        return (vb, cur, True) if cur == va else (cur, cur, False)
    if op == 'fu':
        return cur ^ va, cur, True

def pattern(rng, size):
    b = 8 * size
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, (1 << b) - 1, 1, 1 << (b - 1), (1 << (b - 1)) - 1])
    if k == 1:
        return int.from_bytes(bytes([rng.choice([0, 0x7f, 0x80, 0xff])] * 1) * size, 'big')
    if k == 2:
        return 1 << rng.randrange(b)
    return rng.getrandbits(b)

def near(rng, v, size):
    """a value that differs from v a little, or not at all"""
    b = 8 * size
    k = rng.randrange(5)
    if k <= 1:
        return v
    if k == 2:
        return v ^ 1 << rng.randrange(b)
    if k == 3 and b >= 16:
        h = b // 2
        return v ^ (rng.getrandbits(h) or 1) << rng.choice([0, h])
    return rng.getrandbits(b)

def place(rng, arch, size):
    """(bytes of the cell's region, offset of the value)"""
    g = max(size, arch.container)
    if rng.random() < 0.4:
        n = g
    else:
        n = max(16, g) * rng.choice([1, 2, 3])
    off = rng.randrange(n // size) * size
    if rng.random() < 0.3:
        off = rng.choice([0, n - size])
    return bytes(rng.getrandbits(8) for _ in range(n)), off

class Verdict(Exception):
    def __init__(self, props, msg):
        self.props, self.msg = props, msg

def put(cell, off, n, v, end):
    c = bytearray(cell)
    c[off:off + n] = v.to_bytes(n, end)
    return bytes(c)

# ---------------------------------------------------------------- one operation, nobody else
def gen_seq(rng, w, names):
    f = w.fns[rng.choice(names)]
    cell, off = place(rng, w.arch, f.size)
    cur = int.from_bytes(cell[off:off + f.size], w.arch.end)
    base = addresses(w.arch, rng)
    if f.p == 't' and rng.random() < 0.6:
        cur = base + off & (1 << 8 * f.size) - 1
        cell = put(cell, off, f.size, cur, w.arch.end)
    elif rng.random() < 0.5:
        cur = pattern(rng, f.size) if not (f.p and f.p in 'kz') else near(rng, (1 << 8 * f.size) - 1 if f.p == 'k' else 0, f.size)
        cell = put(cell, off, f.size, cur, w.arch.end)
    va = near(rng, cur, f.size) if f.op in ('cas', 'weak', 'fc') else pattern(rng, f.size)
    return dict(part='seq', fn=f.name, cell=cell.hex(), off=off, a=va, b=pattern(rng, f.size), base=base, noise=rng.getrandbits(32), fill=rng.choice([0, 0xa5, 0xff]),
                fails=[rng.random() < 0.5 for _ in range(rng.choice([0, 0, 0, 1, 2, 5]))], strict=rng.random() < 0.3, ro=f.op == 'load' and f.size <= w.arch.word and rng.random() < 0.5, intr=rng.random() < 0.5)

def run_seq(w, case, runs=None):
    """Raises Verdict; returns whether the case was non-trivial."""
    f = w.fns[case['fn']]
    n, end = f.size, w.arch.end
    if f.p == 't':      # the operands are the address
        x = case['base'] + case['off'] & (1 << 8 * n) - 1
        case = dict(case, a=x, b=x)
    elif f.p and f.p in 'kz':     # constant operands
        x = (1 << 8 * n) - 1 if f.p == 'k' else 0
        case = dict(case, a=x, b=x)
    elif f.p == 's':    # one value as both operands
        case = dict(case, b=case['a'])
    r = Run(w, case)
    if runs is not None:
        runs.append(r)
    snoop = Snoop(r, w, f, case) if f.p == 'q' else None
    addr = case['base'] + case['off']
    t = r.thread(0, f, addr, case['a'], case['b'], case['strict'])
    t.scfail = list(case['fails'])
    w.arch.intr(t, case['intr'])
    limit = SOLO + 60 * len(case['fails'])
    before = bytes.fromhex(case['cell'])
    cur = int.from_bytes(before[case['off']:case['off'] + n], end)
    C2 = ('C02',) if f.op in ('cas', 'weak') else ()
    try:
        while not t.done:
            t.step()
            if t.steps > limit:
                raise Verdict(('C15',) + C2, f'{f.name}: not finished after {limit} instructions' + (f' with {sum(case["fails"])} failed store-conditionals' if case['fails'] else '') + (' (other stores between load-linked and store-conditional lose the reservation)' if case['strict'] else ''))
    except Fault as e:
        raise Verdict(('C03', 'C01') + C2, f'{f.name} on a value at offset {case["off"]} of {len(before)} mapped bytes: {e}')
    out, ok, bad = r.finish(t)
    after = bytes(r.cell.b)
    if bad:
        raise Verdict(('C13',), f'{f.name}: {bad[0]}')
    new, res, okm = model(f.op, cur, case['a'], case['b'], n)
    o = case['off']
    if before[:o] + before[o + n:] != after[:o] + after[o + n:]:
        raise Verdict(('C03',), f'{f.name} at offset {o}: surrounding bytes changed from {before.hex()} to {after.hex()}')
    got = int.from_bytes(after[o:o + n], end)
    what = f'{f.name}(a={case["a"]:#x}, b={case["b"]:#x}) on {cur:#x}'
    P = ('C10', 'C01') if f.op[0] == 'f' else C2 or ('C01',)
    if f.p and f.p in 'ctskz':
        P += ('C13',)
    if f.op == 'weak' and not ok and okm:
        new, okm = cur, False       # allowed spurious failure
        if not any(case['fails']) and not w.arch.weak_may_fail:
            pass
    if res is not None and out != res:
        raise Verdict(P + ('C01',), f'{what} returned {out:#x}')
    if okm is not None and ok != okm:
        raise Verdict(P + ('C01',), f'{what} reported {"success" if ok else "failure"}')
    if got != new:
        raise Verdict(P + ('C01',), f'{what} left {got:#x} in memory, should be {new:#x}')
    if f.p == 'c':
        c0, c1 = (int.from_bytes(t.args.b[A_EX + 16 * k:A_EX + 16 * k + n], end) for k in (6, 7))
        if c0 != cur or c1 != new:
            raise Verdict(P + ('C07',), f'{what}: plain reads of the same memory before and after it gave {c0:#x} and {c1:#x}, should be {cur:#x} and {new:#x}')
    if snoop:
        snoop.judge(t, what, ok)
    return f.op != 'load' or f.p == 'q'

class Snoop:
    """Another thread's view of an operation between plain accesses: what word 0 holds when the cell is written, and word 1 changed
    just before every read of the cell."""
    def __init__(self, r, w, f, case):
        self.w, self.f, self.seen, self.n = w, f, None, 0
        mem, cell = r.mem, r.cell
        lo = cell.lo + case['off'] - case.get('page', 0)
        hi = lo + f.size
        W, end = w.arch.word, w.arch.end
        ex = r.base + r.stride + A_EX
        self.mask = (1 << 8 * W) - 1
        args = lambda: next(x for x in mem.regions if x.name == 'args0')
        def word(k):
            o = A_EX + k * W
            return int.from_bytes(args().b[o:o + W], end)
        def reads(a, n):
            if a < hi and lo < a + n:
                o = A_EX + W
                b = args().b
                self.n += 1
                b[o:o + W] = (word(1) + 1 & self.mask).to_bytes(W, end)
        def writes(a, n):
            if a < hi and lo < a + n:
                self.seen = word(0)
        self.word = word
        rd, wr = mem.rd, mem.wr     # ll, sc and rmw go through these
        def rd2(t, a, n, *x, **k):
            reads(a, n)
            return rd(t, a, n, *x, **k)
        def wr2(t, a, n, *x, **k):
            writes(a, n)
            return wr(t, a, n, *x, **k)
        mem.rd, mem.wr = rd2, wr2
    def judge(self, t, what, ok):
        f, W = self.f, self.w.arch.word
        o = f.ords
        acq = o in ('a', 'x', 's') if f.op in ('load', 'swap') else f.op != 'store' and (o[0] in 'axs' if ok else o[1] in 'as')
        rel = o in ('l', 'x', 's') if f.op in ('store', 'swap') else f.op != 'load' and ok and o[0] in 'lxs'
        e = [int.from_bytes(t.ex0[A_EX + k * W:A_EX + (k + 1) * W], self.w.arch.end) for k in range(4)]
        if rel and self.seen != e[2]:
            raise Verdict(('C07', 'C13'), f'{what}: a plain write before it was not in memory when the {o} operation wrote the cell')
        if acq and self.word(5) != e[1] + self.n & self.mask:
            raise Verdict(('C07', 'C13'), f'{what}: a plain read after it returned what was there before the {o} operation read the cell')
        if self.word(0) != e[3]:
            raise Verdict(('C13', 'C01'), f'{what}: a plain write after it is lost')

# ---------------------------------------------------------------- several threads
def gen_conc(rng, w, names, freeze=False):
    f0 = w.fns[rng.choice(names)]
    size, arch = f0.size, w.arch
    same = [n for n in names if w.fns[n].size == size]
    cell, off = place(rng, arch, size)
    nval = rng.choice([2, 2, 3])
    vals = [pattern(rng, size) for _ in range(nval)]
    if rng.random() < 0.4 and size > 1:   # values that share halves
        h = 4 * size
        lo = (1 << h) - 1
        vals.append(vals[0] & lo | vals[1] & ~lo)
    vals = list(dict.fromkeys(vals))
    cell = put(cell, off, size, vals[0], arch.end)
    nt = rng.choice([2, 2, 2, 3])
    th = []
    for i in range(nt):
        ops = []
        if i and not freeze and len(cell) > size and size < 4 and rng.random() < 0.25:
            # a neighbour: another atomic of the same size in another place, only this thread writes it
            o2 = rng.choice([o for o in range(0, len(cell), size) if o // 4 == off // 4 and o != off] or [o for o in range(0, len(cell), size) if o != off])
            for _ in range(rng.choice([1, 2])):
                ops.append(dict(plain=o2, v=pattern(rng, 1) & 0xff))
        else:
            for j in range(rng.choice([1, 1, 2])):
                n = f0.name if i == 0 and j == 0 else rng.choice(same)
                ops.append(dict(fn=n, a=rng.choice(vals), b=rng.choice(vals)))
        th.append(ops)
    sched = [(rng.randrange(nt), rng.choice([1, 1, 2, 3, 4, 6, 9, 14, 25])) for _ in range(rng.choice([4, 8, 14, 20]))]
    c = dict(part='conc', cell=cell.hex(), off=off, size=size, threads=th, sched=sched, base=addresses(arch, rng), noise=rng.getrandbits(32), gran=rng.choice([1, 4, 16, 64]),
             fails=[[rng.random() < 0.3 for _ in range(rng.choice([0, 0, 1, 3]))] for _ in range(nt)])
    if arch.gran_min:
        c['gran'] = max(c['gran'], arch.gran_min)
    if freeze:
        c['part'] = 'freeze'
        c['freeze'] = rng.randrange(1, rng.choice([12, 20, 60]))
    return c

class VThread:
    """one virtual thread running a list of operations"""
    def __init__(self, run, i, ops):
        self.run, self.i, self.ops, self.k, self.t, self.hist = run, i, ops, 0, None, []
    @property
    def done(self):
        return self.k >= len(self.ops)
    def inside(self):
        return self.t is not None and self.t.steps > 0
    def step(self, clock):
        op = self.ops[self.k]
        r = self.run
        if 'plain' in op:
            o = op['plain']
            r.mem.wr(self, r.base + o, 1, op['v'])
            r.neigh[o] = op['v']
            self.k += 1
            return
        if self.t is None:
            f = r.w.fns[op['fn']]
            t = r.thread(self.i, f, r.base + r.case['off'], op['a'], op['b'])
            t.scfail = self.fails
            # an interrupt handler may start with interrupts disabled
            r.w.arch.intr(t, self.i == 0 or (r.case['noise'] >> self.i & 1))
            self.t, self.inv = t, clock
        self.t.step()
        if self.t.done:
            out, ok, bad = r.finish(self.t)
            if bad:
                raise Verdict(('C13',), f'{op["fn"]}: {bad[0]}')
            self.hist.append(dict(op=self.t.fn.op, a=op['a'], b=op['b'], out=out, ok=ok, inv=self.inv, ret=clock, name=op['fn']))
            r.mem.threads.remove(self.t)
            r.mem.regions = [x for x in r.mem.regions if x.name not in (f'args{self.i}', f'stack{self.i}')]
            self.t = None
            self.k += 1
    tid = property(lambda s: s.i)
    res = None
    strict = False

def linearizable(hist, init, size, final):
    """hist: completed operations; search over orders compatible with real time"""
    hs = sorted(hist, key=lambda h: h['inv'])
    n = len(hs)
    seen = set()
    def go(mask, v):
        if mask == (1 << n) - 1:
            return v == final
        if (mask, v) in seen:
            return False
        seen.add((mask, v))
        first = min(h['ret'] for i, h in enumerate(hs) if not mask >> i & 1)
        for i, h in enumerate(hs):
            if mask >> i & 1 or h['inv'] > first:
                continue
            new, res, ok = model(h['op'], v, h['a'], h['b'], size)
            if h['op'] == 'weak' and ok and not h['ok']:
                new, ok = v, False
            if res is not None and res != h['out'] or ok is not None and ok != h['ok']:
                continue
            if go(mask | 1 << i, new):
                return True
        return False
    return go(0, init)

def describe(h):
    return '; '.join(f'{x["name"]}(a={x["a"]:#x}, b={x["b"]:#x}) -> {x["out"]:#x}{"" if x["op"] not in ("cas", "weak", "fc") else " ok" if x["ok"] else " failed"}' for x in sorted(h, key=lambda x: x['ret']))

def run_conc(w, case):
    arch = w.arch
    r = Run(w, case)
    r.neigh = {}
    size, off, end = case['size'], case['off'], arch.end
    vts = [VThread(r, i, ops) for i, ops in enumerate(case['threads'])]
    for v, f in zip(vts, case['fails']):
        v.fails = list(f)
    before = bytes.fromhex(case['cell'])
    init = int.from_bytes(before[off:off + size], end)
    allowed = {init}
    for ops in case['threads']:
        for o in ops:
            if 'fn' in o:
                k = w.fns[o['fn']].op
                if k in ('store', 'swap'):
                    allowed.add(o['a'])
                elif k in ('cas', 'weak', 'fc'):
                    allowed.add(o['b'])
    fu = any('fn' in o and w.fns[o['fn']].op == 'fu' for ops in case['threads'] for o in ops)
    frozen = case.get('freeze')
    clock, inside = 0, False
    def cellv():
        return int.from_bytes(r.cell.b[off:off + size], end)
    def one(v):
        nonlocal clock
        clock += 1
        v.step(clock)
        if not fu and (not arch.interrupts or v.t is None or arch.enabled(v.t)) and cellv() not in allowed:
            raise Verdict(('C05', 'C06'), f'memory holds {cellv():#x}, which nobody stored, after instruction {v.t.steps if v.t else "last"} of {v.ops[min(v.k, len(v.ops) - 1)].get("fn")}')
    names = ' | '.join(', '.join(o.get('fn', 'plain write to a neighbour') for o in ops) for ops in case['threads'])
    try:
        if arch.interrupts:
            inside = run_nested(arch, vts, case, one)
        elif frozen:
            v0 = vts[0]
            for _ in range(frozen):
                if v0.done:
                    break
                one(v0)
            inside = v0.inside()
            rest = vts[1:]
            n = 0
            while any(not v.done for v in rest):
                # round robin in generated slices
                for tid, cnt in case['sched']:
                    v = rest[tid % len(rest)]
                    for _ in range(cnt):
                        if v.done:
                            break
                        one(v)
                        n += 1
                for v in rest:
                    while not v.done and n <= 12000:
                        one(v)
                        n += 1
                if n > 12000:
                    raise Verdict(('C15',), f'{names}: thread 0 stopped after {frozen} instructions, the others do not finish')
        else:
            for tid, cnt in case['sched']:
                v = vts[tid % len(vts)]
                for _ in range(cnt):
                    if v.done:
                        break
                    one(v)
                inside = inside or v.inside()
            n = 0
            for v in vts:
                while not v.done:
                    one(v)
                    n += 1
                    if n > 3000 * len(vts):
                        raise Verdict(('C15',), f'{names}: undisturbed at the end of the schedule, but not finished after {n} more instructions')
    except Fault as e:
        raise Verdict(('C03', 'C05', 'C06'), f'{names}: {e}')
    after = bytes(r.cell.b)
    want = bytearray(before)
    for o, v in r.neigh.items():
        want[o] = v
    if bytes(want[:off]) + bytes(want[off + size:]) != after[:off] + after[off + size:]:
        raise Verdict(('C03',), f'{names}: bytes next to the value: {after.hex()}, should be {bytes(want).hex()} (value at offset {off}, {size} bytes)')
    hist = [h for v in vts for h in v.hist]
    if not fu:
        for h in hist:
            if h['op'] != 'store' and h['out'] not in allowed:
                raise Verdict(('C05', 'C06'), f'{names}: {h["name"]} returned {h["out"]:#x}, which nobody stored: {describe(hist)}')
    if frozen:
        # the stopped operation may or may not have taken effect
        return inside
    if not linearizable(hist, init, size, cellv()):
        P = ('C06', 'C05')
        if any(h['op'] in ('cas', 'weak') for h in hist):
            P += ('C02',)
        if any(h['op'][0] == 'f' for h in hist):
            P += ('C10',)
        raise Verdict(P, f'{names}: no order of the operations explains the history from {init:#x} to {cellv():#x}: {describe(hist)}')
    return inside

def run_nested(arch, vts, case, one):
    """Interrupt style: at chosen instructions of one thread another one runs to its end, when interrupts are enabled."""
    inside = False
    pend = [c for _, c in case['sched']]
    def run(i):
        nonlocal inside
        v = vts[i]
        c = pend.pop() if pend else 10 ** 9
        n = 0
        while not v.done:
            one(v)
            n += 1
            if n > 3000:
                raise Verdict(('C15',), 'not finished after 3000 instructions')
            if n >= c and i + 1 < len(vts) and not vts[i + 1].done and (v.t is None or arch.enabled(v.t)):
                inside = inside or v.inside()
                run(i + 1)
    run(0)
    for i in range(len(vts)):
        if not vts[i].done:
            run(i)
    return inside

# ---------------------------------------------------------------- uninitialised bytes: the same call twice with different garbage in them
def gen_twice(rng, w, names):
    c = gen_seq(rng, w, names)
    f, n = w.fns[c['fn']], len(c['cell']) // 2
    def mask(n):
        k = rng.randrange(4)
        return [rng.random() < (0, 0.3, 0.7, 1)[k] for _ in range(n)]
    un = mask(n)
    if f.op in ('cas', 'weak'):         # comparing uninitialised bytes may go either way: only those that are not compared
        for i in range(f.size):
            un[c['off'] + i] = False
    flip = lambda m: bytes(rng.randrange(1, 256) if x else 0 for x in m).hex()
    z = '00' * f.size
    c.update(part='twice', xcell=flip(un), xa=flip(mask(f.size)) if f.op in ('store', 'swap') else z, xb=flip(mask(f.size)) if f.op in ('cas', 'weak') else z)
    if f.op == 'weak':
        c['fails'] = []
    return c

def run_twice(w, case):
    f = w.fns[case['fn']]
    n, end, o = f.size, w.arch.end, case['off']
    def go(case):
        r = Run(w, case)
        t = r.thread(0, f, case['base'] + o, case['a'], case['b'], case['strict'])
        t.scfail = list(case['fails'])
        w.arch.intr(t, case['intr'])
        at = []
        rd = r.mem.rd
        def rd2(t, a, n, *x, **k):
            at.append(a)
            return rd(t, a, n, *x, **k)
        r.mem.rd = rd2
        pcs = []
        try:
            while not t.done and len(pcs) < SOLO + 60 * len(case['fails']):
                pcs.append(t.pc)
                t.step()
        except Fault:
            return None
        if not t.done:
            return None
        # (one more round of a compare-and-swap loop is no other path)
        return set(pcs), set(at), bytes(r.cell.b), t.args.b[A_OUT:A_OUT + n], t.args.b[A_OK]
    xor = lambda a, b: bytes(x ^ y for x, y in zip(a, b))
    num = lambda v, x: int.from_bytes(xor(v.to_bytes(n, end), x), end)
    xc, xa, xb = (bytes.fromhex(case[k]) for k in ('xcell', 'xa', 'xb'))
    c0 = bytes.fromhex(case['cell'])
    one = go(case)
    two = go(dict(case, cell=xor(c0, xc).hex(), a=num(case['a'], xa), b=num(case['b'], xb)))
    if not one or not two:
        return False        # other properties' business
    def say(x, k=None):
        return ''.join('--' if m else f'{b:02x}' for b, m in zip(x, k))
    what = f'{f.name}({say(case["a"].to_bytes(n, end), xa)}, {say(case["b"].to_bytes(n, end), xb)}) on {say(c0[o:o + n], xc[o:o + n])} (bytes in memory order, -- uninitialised; neighbours {say(c0[:o] + c0[o + n:], xc[:o] + xc[o + n:])})'
    # what may be uninitialised afterwards
    cur, op = xc[o:o + n], f.op
    res = None if op == 'store' else cur
    new = xa if op in ('store', 'swap') else cur if op == 'load' or not one[4] else xb
    if one[4] != two[4] and op in ('cas', 'weak'):
        raise Verdict(('C04',), f'{what}: whether it succeeds depends on uninitialised bytes')
    xnew = xc[:o] + new + xc[o + n:]
    for i, (x, y) in enumerate(zip(one[2], two[2])):
        if x != y and not xnew[i]:
            raise Verdict(('C04',), f'{what}: byte {i - o} of the memory at the value is initialised, but what is left in it depends on uninitialised bytes')
        if x == y and xnew[i]:
            raise Verdict(('C04',), f'{what}: byte {i - o} of the memory at the value does not hold the byte it should')
    if res is not None:
        for i, (x, y) in enumerate(zip(one[3], two[3])):
            if x != y and not res[i]:
                raise Verdict(('C04',), f'{what}: byte {i} of the result is initialised, but depends on uninitialised bytes')
            if x == y and res[i]:
                raise Verdict(('C04',), f'{what}: byte {i} of the result is not the byte that was in memory')
    if one[0] != two[0]:
        raise Verdict(('C04',), f'{what}: the path of the operation depends on uninitialised bytes')
    if one[1] != two[1]:
        raise Verdict(('C04',), f'{what}: the addresses the operation reads depend on uninitialised bytes')
    return any(xc) or any(xa) or any(xb)

# ---------------------------------------------------------------- raw functions against the methods of the same type
def swapped(case):
    """the same case with raw functions for methods, methods for raw functions"""
    other = lambda f: f[1:] if f[0] == 'n' else 'n' + f
    if 'fn' in case:
        return dict(case, fn=other(case['fn']))
    return dict(case, threads=[[dict(o, fn=other(o['fn'])) if 'fn' in o else o for o in t] for t in case['threads']])

def paired(gen, run):
    def g(rng, w, names):
        c = gen(rng, w, [n for n in names if n[0] != 'n'])
        if c is None:
            return c
        if 'fails' in c and any(x in str(c) for x in ("'weak_", "'nweak_")):
            c['fails'] = [[] for _ in c['threads']] if 'threads' in c else []
        return swapped(c) if rng.random() < 0.5 else c
    def r(w, c):
        try:
            return run(w, c)
        except Verdict as v:
            try:
                run(w, swapped(c))
            except Verdict:
                return False    # both: not a difference
            m = any(f[0] == 'n' for f in ([c['fn']] if 'fn' in c else [o['fn'] for t in c['threads'] for o in t if 'fn' in o]))
            raise Verdict(('C14',), f'{v.msg} (n... is the method: the {"raw functions are" if m else "methods are"} right in the same case)')
    return g, r

def gen_kernel(rng, w, names):
    wide = [n for n in names if w.fns[n].size == 8]
    c = gen_seq(rng, w, wide if wide and rng.random() < 0.8 else names)
    return dict(c, part='kernel', kver=rng.choice([3, 4, 4, 5, 5, 6, 7]))

def run_kernel(w, case):
    """Pre-v6 Arm Linux: the kernel offers its helpers from some version on."""
    f, v = w.fns[case['fn']], case['kver']
    if not getattr(w.arch, 'kuser', False):
        return False
    c = dict(case, part='seq')
    run_seq(w, dict(c, kver=99))        # External: code that is elsewhere, no verdict
    what = f'{f.name} where the kernel has helpers of version {v}'
    r = []
    try:
        run_seq(w, c, r)
        done = True
    except External as e:
        done = False
        if bytes(r[0].cell.b).hex() != case['cell']:
            raise Verdict(('C12',), f'{what} gives up ({e}) after writing to memory')
    except Verdict as e:
        raise Verdict(('C12',), f'{what}: {e.msg}')
    if done and f.size == 8 and v < 5:
        raise Verdict(('C12',), f'{what} completes, which needs a helper of version 5')
    if not done and (f.size < 8 or v >= 5):
        raise Verdict(('C12',), f'{what} is refused')
    return v < 5

PARTS = {'kernel': (gen_kernel, run_kernel), 'twice': (gen_twice, run_twice), 'seq': (gen_seq, run_seq), 'conc': (gen_conc, run_conc), 'freeze': (lambda r, w, n: gen_conc(r, w, n, True), run_conc)}

# ---------------------------------------------------------------- shrinking
def shrink(w, case, runner, props):
    def bad(c):
        try:
            runner(w, c)
        except Verdict as v:
            return v.msg if set(v.props) & set(props) else None
        except (Unmodelled, Exception):
            return None
        return None
    best, msg = case, bad(case)
    if case['part'] == 'twice':
        for k in ('xcell', 'xa', 'xb'):
            for i in range(0, len(case[k]), 2):
                c = dict(best, **{k: best[k][:i] + '00' + best[k][i + 2:]})
                m = bad(c)
                if m:
                    best, msg = c, m
    if case['part'] in ('seq', 'twice', 'kernel'):
        for k, vs in (('fails', [[]]), ('strict', [False]), ('fill', [0]), ('a', [0, 1]), ('b', [0, 1])):
            for v in vs:
                c = dict(best, **{k: v})
                m = bad(c)
                if m:
                    best, msg = c, m
                    break
        return best, msg
    if 'sched' not in case:
        return best, msg
    change = True
    while change:
        change = False
        cand = []
        for i in range(len(best['threads'])):
            if len(best['threads'][i]) > 1:
                for j in range(len(best['threads'][i])):
                    t = [list(x) for x in best['threads']]
                    del t[i][j]
                    cand.append(dict(best, threads=t))
        for i in range(len(best['sched'])):
            cand.append(dict(best, sched=best['sched'][:i] + best['sched'][i + 1:]))
            if best['sched'][i][1] > 1:
                cand.append(dict(best, sched=best['sched'][:i] + [(best['sched'][i][0], best['sched'][i][1] - 1)] + best['sched'][i + 1:]))
        if any(best['fails']):
            cand.append(dict(best, fails=[[] for _ in best['fails']]))
        for c in cand:
            m = bad(c)
            if m:
                best, msg, change = c, m, True
                break
    return best, msg
