from core import *
NAMES = {f'r{i}': i for i in range(16)}
NAMES.update(sb=9, sl=10, fp=11, ip=12, sp=13, lr=14, pc=15)
COND = {'eq': lambda f: f[1], 'ne': lambda f: not f[1], 'lo': lambda f: not f[2], 'cc': lambda f: not f[2], 'hs': lambda f: f[2], 'cs': lambda f: f[2], 'mi': lambda f: f[0], 'pl': lambda f: not f[0], 'vs': lambda f: f[3], 'vc': lambda f: not f[3],
        'hi': lambda f: f[2] and not f[1], 'ls': lambda f: not f[2] or f[1], 'ge': lambda f: f[0] == f[3], 'lt': lambda f: f[0] != f[3], 'gt': lambda f: not f[1] and f[0] == f[3], 'le': lambda f: f[1] or f[0] != f[3], 'al': lambda f: True}
M = 0xffffffff
MN = r'and|eor|orr|orn|bic|add|adc|sub|sbc|rsb|mov|mvn|movw|movt|lsl|lsr|asr|ror|cmp|cmn|tst|teq|mul|uxtb|uxth|sxtb|sxth|bfi|bfc|ubfx|bx|blx|b|ldr|ldrb|ldrh|ldrsb|ldrsh|ldrd|str|strb|strh|strd|push|pop|ldrex|ldrexb|ldrexh|ldrexd|strex|strexb|strexh|strexd|lda|ldab|ldah|stl|stlb|stlh|ldaex|ldaexb|ldaexh|ldaexd|stlex|stlexb|stlexh|stlexd|mcr|stm|ldm|stmdb|ldmia|stmia|ldmdb|stmib|ldmib|neg|clz|rsc|uxtab|uxtah|sxtab|sxtah|rrx|addw|subw|cbz|cbnz|umull|smull|umlal|mla|mls|rev|rev16|sbfx'
RX = re.compile(rf'({MN})(s?)({"|".join(COND)})?(\.w|\.n)?$')

class Arch(Base):
    bits, word, nreg, m = 32, 4, 16, M
    callee = list(range(4, 12)) + [13]
    def __init__(self, end='little', mode='arm', kuser=''):
        self.end, self.thumb, self.kuser = end, mode == 'thumb', kuser == 'kuser'
    def rname(self, k):
        return f'r{k}'
    def start(self, t, arg, sp):
        t.r[0], t.r[14], t.r[13] = arg, RET, sp & ~7
        t.x['f'] = (0, 1, 1, 0)
        if self.kuser and not any(r.name == 'kuser version' for r in t.mem.regions):
            t.mem.add(0xffff0ffc, getattr(t.mem, 'kver', 5).to_bytes(4, self.end), 'kuser version', False)
    def extra(self):
        """the kernel's user helpers"""
        def need(t, v, what):
            if getattr(t.mem, 'kver', 5) < v:
                raise Fault(f'calls {what}, which the kernel does not have')
        def leave(t):
            t.npc = t.r[14] & ~1
        def smash(t, ks):
            for k in ks:
                t.r[k] = (t.r[k] * 2654435761 + 0x9e3779b9 + k) & M
        def cmpxchg(t):
            need(t, 2, '__kuser_cmpxchg')
            t.mem.fence(t, [('RW', 'RW')])
            o = t.mem.rmw(t, t.r[2], 4, lambda x: t.r[1] if x == t.r[0] else None, 'F')
            ok = o == t.r[0]
            t.mem.fence(t, [('RW', 'RW')])
            smash(t, (3, 12))
            t.r[0] = 0 if ok else (o - t.r[0]) & M
            t.x['f'] = (t.r[0] >> 31, int(ok), int(ok), 0)
            leave(t)
        def cmpxchg64(t):
            need(t, 5, '__kuser_cmpxchg64')
            e, v = t.mem.rdm(t, t.r[0], 8), t.mem.rdm(t, t.r[1], 8)
            t.mem.fence(t, [('RW', 'RW')])
            o = t.mem.rmw(t, t.r[2], 8, lambda x: v if x == e else None, 'F')
            t.mem.fence(t, [('RW', 'RW')])
            ok = o == e
            leave(t)
            smash(t, (3, 14))
            t.r[0] = 0 if ok else (t.r[3] | 1)
            t.x['f'] = (0, int(ok), int(ok), 0)
        def barrier(t):
            need(t, 3, '__kuser_memory_barrier')
            t.mem.fence(t, [('RW', 'RW')])
            leave(t)
        return {0xffff0fc0: ([cmpxchg], None), 0xffff0f60: ([cmpxchg64], None), 0xffff0fa0: ([barrier], None)} if self.kuser else {}
    def decode(self, addr, text, rel, sec):
        # data in the code, in either form the disassembler prints
        if re.search(r'\.(word|short|byte|inst)', text):
            def data(t):
                raise Fault(f'executing data at {addr:#x}')
            return [data]
        if any('V4BX' not in x[1] for x in rel):
            if self.kuser and len(rel) == 1 and re.search(r'R_ARM_(CALL|JUMP24|PC24)$', rel[0][1].split()[0]):
                # where the kernel lacks a helper
                def outside(t, s=rel[0][1].split()[-1]):
                    raise External(f'call of {s}')
                return [outside]
            raise Unmodelled(text + str(rel))
        body, _, com = text.partition('@')
        p = body.split(None, 1)
        ops = split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if p[0].startswith('it'):
            return [lambda t: None]
        if p[0] in ('nop', 'nop.w'):
            return [lambda t: None]
        if p[0] in ('dmb', 'dsb'):
            o = ops[0] if ops else 'sy'
            k = [('W', 'W')] if o.endswith('st') else [('R', 'RW')] if o.endswith('ld') else [('RW', 'RW')]
            if o.startswith('nsh'):
                k = []
            return [lambda t: t.mem.fence(t, k)]
        if p[0] == 'isb':
            return [lambda t: t.mem.fence(t, 'isync')]
        if p[0] == 'clrex':
            def go(t):
                t.res = None
            return [go]
        # the longest base name wins, but bls/blt... are branches with a condition
        mm = None
        for a in sorted(MN.split('|'), key=len, reverse=True):
            q = re.fullmatch(rf'{a}(s?)({"|".join(COND)})?(\.w|\.n)?', p[0])
            if q and not (q.group(1) and re.match('bl?x?$|ld|st|push|pop|cmp|cmn|tst|teq|mcr|movw|movt|ubfx|sbfx|bf|uxt|sxt|clz|addw|subw|cb|rev', a) and a != 'bic'):
                mm = a, q.group(1), q.group(2)
                break
        if p[0] in ('bls', 'blt', 'ble', 'blo'):
            mm = 'b', '', p[0][1:]
        if not mm:
            raise Unmodelled(text)
        k, s, cond = mm
        fs = self.one(k, s == 's', ops, addr, text, com, sec)
        if cond and cond != 'al':
            c = COND[cond]
            if k == 'b':
                return fs[:0] + [lambda t, f=fs[0]: (t.mem.fence(t, 'branch'), f(t) if c(t.x['f']) else None)]
            return [lambda t, f=f: f(t) if c(t.x['f']) else None for f in fs]
        return fs
    def one(self, k, s, ops, addr, text, com, sec):
        pcv = addr + (4 if self.thumb else 8)
        def R(x):
            return NAMES[x]
        def get(x):
            i = R(x)
            return (lambda t: pcv) if i == 15 else (lambda t: t.r[i])
        def setr(d, f):
            def g(t):
                v = f(t) & M
                if d == 15:
                    t.npc = v & ~1
                else:
                    t.r[d] = v
            return g
        def op2(xs):
            """operand and shifter: gives (value, carry or None)"""
            x = xs[0]
            if x[0] in '#-' or x[0].isdigit():
                v = num(x) & M
                return lambda t: v
            g = get(x)
            if len(xs) == 1:
                return g
            sh = xs[1].split()
            if sh[0] == 'rrx':
                return lambda t: g(t) >> 1 | t.x['f'][2] << 31
            a = (lambda v: lambda t: v)(num(sh[1])) if sh[1][0] == '#' else (lambda q: lambda t: q(t) & 255)(get(sh[1]))
            return lambda t: shift(sh[0], g(t), a(t))
        def shift(n, v, a):
            if n == 'lsl':
                return v << a & M if a < 32 else 0
            if n == 'lsr':
                return v >> a if a < 32 else 0
            if n == 'asr':
                return sx(v, 32) >> min(a, 31) & M
            a &= 31
            return (v >> a | v << 32 - a) & M if a else v
        def nz(t, r, c=None):
            f = t.x['f']
            t.x['f'] = (r >> 31, int(r == 0), f[2] if c is None else c, f[3])
        def shc(n, v, a):
            """the carry a shift leaves; None: unchanged"""
            if not a:
                return None
            if n == 'lsl':
                return v >> 32 - a & 1 if a <= 32 else 0
            if n == 'lsr':
                return v >> a - 1 & 1
            return sx(v, 32) >> min(a, 32) - 1 & 1 if n == 'asr' else v >> (a - 1 & 31) & 1
        def op2c(xs):
            """the carry of a shifted operand; immediates leave it alone (the encodings that would not are not told apart here)"""
            if len(xs) == 1 or xs[0][0] in '#-':
                return lambda t: None
            g, sh = get(xs[0]), xs[1].split()
            if sh[0] == 'rrx':
                return lambda t: g(t) & 1
            a = (lambda v: lambda t: v)(num(sh[1])) if sh[1][0] == '#' else (lambda q: lambda t: q(t) & 255)(get(sh[1]))
            return lambda t: shc(sh[0], g(t), a(t))
        def sub(t, x, y, c=1):
            r = x + (~y & M) + c
            t.x['f'] = (r >> 31 & 1, int(r & M == 0), r >> 32 & 1, int(sx(x, 32) - sx(y, 32) - 1 + c != sx(r, 32)))
            return r & M
        def add(t, x, y, c=0):
            r = x + y + c
            t.x['f'] = (r >> 31 & 1, int(r & M == 0), r >> 32 & 1, int(sx(x, 32) + sx(y, 32) + c != sx(r, 32)))
            return r & M
        lg = {'and': lambda x, y: x & y, 'eor': lambda x, y: x ^ y, 'orr': lambda x, y: x | y, 'orn': lambda x, y: x | ~y & M, 'bic': lambda x, y: x & ~y & M}
        if k in ('addw', 'subw'):
            k = k[:3]
        if k in lg or k in ('add', 'sub', 'rsb', 'rsc', 'adc', 'sbc', 'mul'):
            d = R(ops[0])
            if len(ops) == 2 or len(ops) == 3 and re.match(r'(lsl|lsr|asr|ror)\b', ops[2]):
                ops = [ops[0]] + ops
            a, b, bc = get(ops[1]), op2(ops[2:]), op2c(ops[2:])
            if R(ops[1]) == 15 and k == 'add':
                raise Unmodelled(text)
            def f(t):
                x, y = a(t), b(t)
                c = t.x['f'][2]
                if k in lg:
                    r = lg[k](x, y)
                    if s:
                        nz(t, r, bc(t))
                    return r
                if k == 'mul':
                    r = x * y & M
                    if s:
                        nz(t, r)
                    return r
                keep = t.x['f']
                r = {'add': lambda: add(t, x, y), 'sub': lambda: sub(t, x, y), 'rsb': lambda: sub(t, y, x), 'adc': lambda: add(t, x, y, c), 'sbc': lambda: sub(t, x, y, c), 'rsc': lambda: sub(t, y, x, c)}[k]()
                if not s:
                    t.x['f'] = keep
                return r
            return [setr(d, f)]
        if k in ('mov', 'mvn', 'lsl', 'lsr', 'asr', 'ror', 'uxtb', 'uxth', 'sxtb', 'sxth', 'neg', 'movw', 'clz', 'rrx', 'rev', 'rev16'):
            d = R(ops[0])
            cy = lambda t: None
            if k in ('mov', 'mvn', 'movw'):
                b, cy = op2(ops[1:]), op2c(ops[1:])
                g = b if k != 'mvn' else (lambda t: ~b(t) & M)
            elif k in ('lsl', 'lsr', 'asr', 'ror'):
                if len(ops) == 2:
                    ops = [ops[0]] + ops
                a, b = get(ops[1]), op2(ops[2:])
                g = lambda t: shift(k, a(t), b(t) & 255)
                cy = lambda t: shc(k, a(t), b(t) & 255)
            elif k == 'rrx':
                a = get(ops[1])
                g, cy = lambda t: a(t) >> 1 | t.x['f'][2] << 31, lambda t: a(t) & 1
            else:
                a = get(ops[1])
                if len(ops) > 2:
                    raise Unmodelled(text)
                g = {'uxtb': lambda t: a(t) & 255, 'uxth': lambda t: a(t) & 0xffff, 'sxtb': lambda t: sx(a(t), 8) & M, 'sxth': lambda t: sx(a(t), 16) & M, 'neg': lambda t: -a(t) & M, 'clz': lambda t: 32 - a(t).bit_length(), 'rev': lambda t: int.from_bytes(a(t).to_bytes(4, 'little'), 'big'), 'rev16': lambda t: (a(t) & 0xff00ff) << 8 | a(t) >> 8 & 0xff00ff}[k]
            def f(t):
                r = g(t)
                if s:
                    nz(t, r, cy(t))
                return r
            return [setr(d, f)]
        if k == 'movt':
            d, v = R(ops[0]), num(ops[1]) << 16
            return [setr(d, lambda t: t.r[d] & 0xffff | v)]
        if k in ('bfi', 'bfc', 'ubfx', 'sbfx'):
            d = R(ops[0])
            if k == 'bfc':
                l, w = num(ops[1]), num(ops[2])
                return [setr(d, lambda t: t.r[d] & ~((1 << w) - 1 << l))]
            a, l, w = get(ops[1]), num(ops[2]), num(ops[3])
            if k == 'sbfx':
                return [setr(d, lambda t: sx(a(t) >> l & (1 << w) - 1, w))]
            if k == 'ubfx':
                return [setr(d, lambda t: a(t) >> l & (1 << w) - 1)]
            return [setr(d, lambda t: t.r[d] & ~((1 << w) - 1 << l) | (a(t) & (1 << w) - 1) << l)]
        if k in ('cmp', 'cmn', 'tst', 'teq'):
            a, b, bc = get(ops[0]), op2(ops[1:]), op2c(ops[1:])
            return [lambda t: {'cmp': lambda: sub(t, a(t), b(t)), 'cmn': lambda: add(t, a(t), b(t)), 'tst': lambda: nz(t, a(t) & b(t), bc(t)), 'teq': lambda: nz(t, a(t) ^ b(t), bc(t))}[k]()]
        if k in ('umull', 'smull', 'umlal'):
            l, h, a, b = R(ops[0]), R(ops[1]), get(ops[2]), get(ops[3])
            def go(t):
                v = sx(a(t), 32) * sx(b(t), 32) if k == 'smull' else a(t) * b(t)
                if k == 'umlal':
                    v += t.r[h] << 32 | t.r[l]
                t.r[l], t.r[h] = v & M, v >> 32 & M
            if s:
                raise Unmodelled(text)
            return [go]
        if k in ('uxtab', 'uxtah', 'sxtab', 'sxtah'):
            if len(ops) > 3 or s:
                raise Unmodelled(text)
            d, a, b, n = R(ops[0]), get(ops[1]), get(ops[2]), 8 if k[-1] == 'b' else 16
            return [setr(d, lambda t: a(t) + (b(t) & (1 << n) - 1 if k[0] == 'u' else sx(b(t) & (1 << n) - 1, n)))]
        if k in ('mla', 'mls'):
            if s:
                raise Unmodelled(text)
            d, a, b, c = R(ops[0]), get(ops[1]), get(ops[2]), get(ops[3])
            return [setr(d, lambda t: c(t) + (a(t) * b(t) if k == 'mla' else -a(t) * b(t)))]
        if k in ('cbz', 'cbnz'):
            a, tg = get(ops[0]), num(ops[1].split()[0])
            def go(t):
                t.mem.fence(t, 'branch')
                if (a(t) == 0) == (k == 'cbz'):
                    t.npc = tg
            return [go]
        if k == 'b':
            tg = num(ops[0].split()[0])
            def go(t):
                t.npc = tg
            return [go]
        if k in ('bx', 'blx'):
            a = get(ops[0])
            nx = addr + (2 if self.thumb else 4)
            def go(t):
                v = a(t)
                if k == 'blx':
                    t.r[14] = nx | (1 if self.thumb else 0)
                t.npc = v & ~1
            return [go]
        if k == 'mcr':
            x = [o.lower() for o in ops]
            c = (x[3], x[4], num(x[5]))
            if x[0] == 'p15' and c in (('c7', 'c10', 5), ('c7', 'c10', 4)):
                return [lambda t: t.mem.fence(t, [('RW', 'RW')])]
            if x[0] == 'p15' and c == ('c7', 'c5', 4):
                return [lambda t: t.mem.fence(t, 'isync')]
            raise Unmodelled(text)
        # ---- memory
        def mem(xs):
            a = re.fullmatch(r'\[(\w+)(?:, #?(-?\w+))?(?:, (lsl) #(\d+))?\](!?)', xs[0])
            if not a:
                raise Unmodelled(text)
            b, o = R(a.group(1)), a.group(2)
            if o in NAMES:
                i, sh = NAMES[o], int(a.group(4) or 0)
                if b == 15:
                    raise Unmodelled(text)
                return lambda t: t.r[b] + (t.r[i] << sh) & M
            o = int(o or '0', 0)
            if b == 15:
                ea = (pcv & ~3) + o
                return lambda t: ('lit', ea)
            post = None
            if len(xs) > 1:
                if xs[1][0] != '#':
                    raise Unmodelled(text)
                post = num(xs[1])
            wb = a.group(5)
            def f(t):
                if post is not None:
                    x = t.r[b]
                    t.r[b] = x + post & M
                    return x
                x = t.r[b] + o & M
                if wb:
                    t.r[b] = x
                return x
            return f
        sz = {'': 4, 'b': 1, 'h': 2, 'sb': 1, 'sh': 2, 'd': 8}
        end = self.end
        a = re.fullmatch(r'(ldr|lda)(b|h|sb|sh)?', k)
        if a:
            n, d, ad, tg = sz[a.group(2) or ''], R(ops[0]), mem(ops[1:]), 'A' if a.group(1) == 'lda' else ''
            def f(t):
                x = ad(t)
                if x.__class__ is tuple:
                    v = int.from_bytes(sec[x[1]:x[1] + n], end)
                else:
                    v = t.mem.rd(t, x, n, tag=tg)
                return sx(v, 8 * n) if (a.group(2) or '')[:1] == 's' else v
            return [setr(d, f)]
        a = re.fullmatch(r'(str|stl)(b|h)?', k)
        if a:
            n, g, ad, tg = sz[a.group(2) or ''], get(ops[0]), mem(ops[1:]), 'L' if a.group(1) == 'stl' else ''
            return [lambda t: t.mem.wr(t, ad(t), n, g(t), tag=tg)]
        if k in ('ldrd', 'strd'):
            # two words, in either order, not one access
            r0, r1, ad = R(ops[0]), R(ops[1]), mem(ops[2:])
            def lo(t):
                t.x['ea'] = x = ad(t)
                if k == 'ldrd':
                    t.x['lo'] = t.mem.rd(t, x, 4)
                else:
                    t.mem.wr(t, x, 4, t.r[r0])
            def hi(t):
                if k == 'ldrd':
                    v = t.mem.rd(t, t.x['ea'] + 4, 4)
                    t.r[r0], t.r[r1] = t.x['lo'], v
                else:
                    t.mem.wr(t, t.x['ea'] + 4, 4, t.r[r1])
            return [lo, hi]
        def pair(x, y):
            return x | y << 32 if end == 'little' else y | x << 32
        def unpair(v):
            return (v & M, v >> 32) if end == 'little' else (v >> 32, v & M)
        a = re.fullmatch(r'ld(r|a)ex(b|h|d)?', k)
        if a:
            n, tg = sz[a.group(2) or ''], 'A' if a.group(1) == 'a' else ''
            if n == 8:
                r0, r1, ad = R(ops[0]), R(ops[1]), mem(ops[2:])
                def go(t):
                    t.r[r0], t.r[r1] = unpair(t.mem.ll(t, ad(t), 8, tg))
                return [go]
            d, ad = R(ops[0]), mem(ops[1:])
            return [setr(d, lambda t: t.mem.ll(t, ad(t), n, tg))]
        a = re.fullmatch(r'st(r|l)ex(b|h|d)?', k)
        if a:
            n, tg = sz[a.group(2) or ''], 'L' if a.group(1) == 'l' else ''
            q = R(ops[0])
            if n == 8:
                r0, r1, ad = R(ops[1]), R(ops[2]), mem(ops[3:])
                v = lambda t: pair(t.r[r0], t.r[r1])
            else:
                r0, ad = R(ops[1]), mem(ops[2:])
                v = lambda t: t.r[r0]
            if ops[0] in ops[1:-1] or ops[0] == ops[-1].strip('[]'):
                raise Unmodelled(text + ' is unpredictable')
            return [setr(q, lambda t: 0 if t.mem.sc(t, ad(t), n, v(t), tg) else 1)]
        if k in ('push', 'pop', 'stm', 'ldm', 'stmia', 'ldmia', 'stmdb', 'ldmdb', 'stmib', 'ldmib'):
            lst = ops[-1].strip('{}')
            regs = []
            for x in lst.split(','):
                x = x.strip()
                if '-' in x:
                    u, v = x.split('-')
                    regs += range(NAMES[u], NAMES[v] + 1)
                else:
                    regs.append(NAMES[x])
            st = k in ('push', 'stm', 'stmia', 'stmdb', 'stmib')
            b, wb = (13, True) if k in ('push', 'pop') else (R(ops[0].rstrip('!')), ops[0].endswith('!'))
            db = k in ('push', 'stmdb', 'ldmdb')
            n = 4 * len(regs)
            def first(t):
                t.x['ea'] = t.r[b] - n & M if db else t.r[b] + (4 if k[2:] == 'mib' else 0)
                if wb:
                    t.r[b] = t.x['ea'] if db else t.r[b] + n & M
            def one(i, g):
                if st:
                    return lambda t: t.mem.wr(t, t.x['ea'] + 4 * i, 4, t.r[g])
                return setr(g, lambda t: t.mem.rd(t, t.x['ea'] + 4 * i, 4))
            return [first] + [one(i, g) for i, g in enumerate(regs)]
        raise Unmodelled(text)
