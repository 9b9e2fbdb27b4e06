from core import *
# d0-d7 = 0..7, a0-a7 = 8..15, ccr = 16 (bits X N Z V C = 4 3 2 1 0)
class Arch(Base):
    tso = True
    def __init__(self):
        self.end, self.bits, self.word, self.nreg, self.container, self.redzone = 'big', 32, 4, 17, 1, 16
        self.objdump = ['--mcpu=M68020']
        self.callee = list(range(2, 8)) + list(range(10, 15))
    def rname(self, k):
        return f'd{k}' if k < 8 else f'a{k - 8}'
    def start(self, t, arg, sp):
        sp = sp - 8 & ~3
        t.r[15] = sp
        t.mem.wr(t, sp + 4, 4, arg)
        t.mem.wr(t, sp, 4, RET)
        t.r[16] = 0
        t.x['sp'] = sp
    def decode(self, addr, text, rel, sec):
        p = text.split(None, 1)
        m, ops = p[0], split(p[1]) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        M = 0xffffffff
        def R(s):
            s = s.strip().lstrip('%')
            return 15 if s == 'sp' else int(s[1]) + (8 if s[0] == 'a' else 0) if re.fullmatch(r'[da][0-7]', s) else {}[s]
        m, _, sz = m.partition('.')
        n = {'b': 1, 'w': 2, 'l': 4, '': 4}[sz]
        mask, top = (1 << 8 * n) - 1, 8 * n - 1
        def isreg(s):
            return re.fullmatch(r'%(sp|[da][0-7])', s)
        def ea(s):
            """address of a memory operand"""
            a = re.fullmatch(r'(-)?\((.*)\)(\+)?', s)
            x = [y.strip() for y in a.group(2).split(',')]
            if a.group(1) or a.group(3):
                k = R(x[0])
                st = 2 if k == 15 and n == 1 else n
                def f(t):
                    if a.group(1):
                        t.r[k] = t.r[k] - st & M
                        return t.r[k]
                    v = t.r[k]
                    t.r[k] = v + st & M
                    return v
                return f
            d = 0
            if not x[0].startswith('%'):
                d = int(x[0], 0)
                x = x[1:]
            ks = [R(y) for y in x]
            return lambda t: d + sum(t.r[k] for k in ks) & M
        def word(t, a, k, v=None):
            # plain accesses need no alignment beyond 2
            if a % k and a % 2 == 0 and k == 4:
                if v is None:
                    return t.mem.rd(t, a, 2) << 16 | t.mem.rd(t, a + 2, 2)
                t.mem.wr(t, a, 2, v >> 16)
                return t.mem.wr(t, a + 2, 2, v & 0xffff)
            return t.mem.rd(t, a, k) if v is None else t.mem.wr(t, a, k, v)
        def src(s):
            if s[0] == '#':
                v = int(s[1:], 0) & mask
                return lambda t: v
            if isreg(s):
                k = R(s)
                return lambda t: t.r[k] & mask
            f = ea(s)
            return lambda t: word(t, f(t), n)
        def putr(t, k, v):
            t.r[k] = t.r[k] & ~mask & M | v & mask if k < 8 else sx(v, 8 * n) & M
        def dst(s):
            if isreg(s):
                k = R(s)
                return lambda t, v: putr(t, k, v)
            f = ea(s)
            return lambda t, v: word(t, f(t), n, v)
        def cc(t, v, c=0, o=0, x=None):
            t.r[16] = (t.r[16] & 16 if x is None else x << 4) | (v >> top & 1) << 3 | (v & mask == 0) << 2 | o << 1 | c
        def sub(t, d, s, keepx):
            v = d - s
            r = v & mask
            c = int(v < 0)
            cc(t, r, c, ((d ^ s) & (d ^ r)) >> top & 1, None if keepx else c)
            return r
        def add(t, d, s):
            v = d + s
            r = v & mask
            c = v >> 8 * n
            cc(t, r, c, (~(d ^ s) & (d ^ r)) >> top & 1, c)
            return r
        if m == 'move':
            s, toa = src(ops[0]), isreg(ops[1]) and R(ops[1]) >= 8
            d = dst(ops[1])
            def go(t):
                v = s(t)
                d(t, v)
                if not toa:
                    cc(t, v)
            return [go]
        if m == 'movea':
            s, d = src(ops[0]), dst(ops[1])
            return [lambda t: d(t, s(t))]
        if m == 'moveq':
            v, k = sx(int(ops[0][1:], 0), 8) & M, R(ops[1])
            def go(t):
                t.r[k] = v
                cc(t, v)
            return [go]
        if m == 'lea':
            f, k = ea(ops[0]), R(ops[1])
            def go(t):
                t.r[k] = f(t)
            return [go]
        if m == 'movem':
            def regs(s):
                out = []
                for part in s.split('/'):
                    a, _, b = part.partition('-')
                    out += range(R(a), R(b or a) + 1)
                return sorted(out)
            load = isreg(ops[1].split('/')[0].split('-')[0])
            rs, f = (regs(ops[1]), ea(ops[0])) if load else (regs(ops[0]), ea(ops[1]))
            if '+' in text or '-(' in text:
                raise Unmodelled(text)
            def go(t):
                a = f(t)
                for i, k in enumerate(rs):
                    if load:
                        t.r[k] = sx(word(t, a + i * n, n), 8 * n) & M
                    else:
                        word(t, a + i * n, n, t.r[k] & mask)
            return [go]
        if m in ('adda', 'suba'):
            s, k = src(ops[0]), R(ops[1])
            def go(t):
                v = sx(s(t), 8 * n)
                t.r[k] = t.r[k] + (v if m == 'adda' else -v) & M
            return [go]
        two = {'add': lambda t, d, s: add(t, d, s), 'addi': lambda t, d, s: add(t, d, s), 'addq': lambda t, d, s: add(t, d, s), 'sub': lambda t, d, s: sub(t, d, s, False), 'subi': lambda t, d, s: sub(t, d, s, False), 'subq': lambda t, d, s: sub(t, d, s, False)}
        def lg(f):
            def g(t, d, s):
                v = f(d, s) & mask
                cc(t, v)
                return v
            return g
        for k, f in (('and', lambda d, s: d & s), ('or', lambda d, s: d | s), ('eor', lambda d, s: d ^ s)):
            two[k] = two[k + 'i'] = lg(f)
        if m in two:
            f, s = two[m], src(ops[0])
            if isreg(ops[1]):
                if R(ops[1]) >= 8:
                    raise Unmodelled(text)
                g, d = src(ops[1]), dst(ops[1])
                return [lambda t: d(t, f(t, g(t), s(t)))]
            raise Unmodelled(text)
        if m in ('cmp', 'cmpi', 'cmpa'):
            s, g = src(ops[0]), src(ops[1])
            if m == 'cmpa':
                k = R(ops[1])
                g = lambda t: t.r[k]
                if n != 4:
                    raise Unmodelled(text)
            return [lambda t: sub(t, g(t), s(t), True) and None]
        if m == 'tst':
            s = src(ops[0])
            return [lambda t: cc(t, s(t))]
        if m in ('not', 'neg', 'clr'):
            s, d = src(ops[0]), dst(ops[0])
            if not isreg(ops[0]):
                raise Unmodelled(text)
            def go(t):
                if m == 'neg':
                    return d(t, sub(t, 0, s(t), False))
                v = ~s(t) & mask if m == 'not' else 0
                cc(t, v)
                d(t, v)
            return [go]
        if m in ('ext', 'extb'):
            k = R(ops[0])
            fr = 8 if m == 'extb' or n == 2 else 16
            def go(t):
                v = sx(t.r[k], fr) & mask
                putr(t, k, v)
                cc(t, v)
            return [go]
        if m == 'swap':
            k = R(ops[0])
            def go(t):
                t.r[k] = t.r[k] >> 16 | (t.r[k] & 0xffff) << 16
                cc(t, t.r[k])
            return [go]
        if m in ('lsl', 'lsr', 'asr', 'asl'):
            s, k = src(ops[0]), R(ops[1])
            def go(t):
                c = s(t) & 63
                v = t.r[k] & mask
                if m in ('lsl', 'asl'):
                    w = v << c
                    co = w >> 8 * n & 1 if c else 0
                else:
                    b = v if m == 'lsr' else sx(v, 8 * n)
                    w = b >> c
                    co = b >> c - 1 & 1 if c else 0
                putr(t, k, w & mask)
                cc(t, w & mask, co, 0, co if c else None)
            return [go]
        if m == 'cas':
            c, u, f = R(ops[0]), R(ops[1]), ea(ops[2])
            def go(t):
                e, v = t.r[c] & mask, t.r[u] & mask
                a = f(t)
                o = t.mem.rmw(t, a, n, lambda x: v if x == e else None, 'AL')
                sub(t, o, e, True)
                if o != e:
                    putr(t, c, o)
            return [go]
        if m == 'tas':
            f = ea(ops[0])
            n1 = 1
            def go(t):
                o = t.mem.rmw(t, f(t), 1, lambda x: x | 0x80, 'AL')
                t.r[16] = t.r[16] & 16 | (o >> 7) << 3 | (o == 0) << 2
            return [go]
        conds = {'eq': lambda f: f >> 2 & 1, 'ne': lambda f: not f >> 2 & 1, 'cs': lambda f: f & 1, 'cc': lambda f: not f & 1, 'mi': lambda f: f >> 3 & 1, 'pl': lambda f: not f >> 3 & 1,
                 'hi': lambda f: not f & 1 and not f >> 2 & 1, 'ls': lambda f: f & 1 or f >> 2 & 1, 'ge': lambda f: (f >> 3 ^ f >> 1) & 1 == 0, 'lt': lambda f: (f >> 3 ^ f >> 1) & 1,
                 'gt': lambda f: (f >> 3 ^ f >> 1) & 1 == 0 and not f >> 2 & 1, 'le': lambda f: (f >> 3 ^ f >> 1) & 1 or f >> 2 & 1, 'ra': lambda f: 1, 't': lambda f: 1, 'f': lambda f: 0}
        if m[0] == 's' and m[1:] in conds and len(ops) == 1:
            g, k = conds[m[1:]], R(ops[0])
            def go(t):
                t.r[k] = t.r[k] & ~0xff & M | (0xff if g(t.r[16]) else 0)
            return [go]
        if m[0] == 'b' and m[1:] in conds:
            g = conds[m[1:]]
            d = sec[addr + 1]
            d = sx(d, 8) if d not in (0, 255) else sx(int.from_bytes(sec[addr + 2:addr + 4], 'big'), 16) if d == 0 else sx(int.from_bytes(sec[addr + 2:addr + 6], 'big'), 32)
            tg = addr + 2 + d
            def go(t):
                if g(t.r[16]):
                    t.npc = tg
            return [go]
        if m == 'nop':
            return [lambda t: None]
        if m == 'rts':
            def go(t):
                if t.r[15] != t.x['sp']:
                    raise Fault(f'return with the stack pointer at {t.r[15]:#x}, was {t.x["sp"]:#x}')
                t.npc = t.mem.rd(t, t.r[15], 4)
            return [go]
        raise Unmodelled(text)
