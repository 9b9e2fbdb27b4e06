from core import *
NAMES = ['zero', 'ra', 'tp', 'sp'] + [f'a{i}' for i in range(8)] + [f't{i}' for i in range(9)] + ['r21', 'fp'] + [f's{i}' for i in range(9)]
IDX = {n: i for i, n in enumerate(NAMES)}
M = (1 << 64) - 1

class Arch(Base):
    high, nreg = True, 32
    callee = [2, 3, 21] + list(range(22, 32))
    objdump = ['--mattr=+lamcas,+lam-bh']
    def rname(self, k):
        return NAMES[k]
    def start(self, t, arg, sp):
        t.r[0], t.r[1], t.r[3], t.r[4] = 0, RET, sp, arg
    def decode(self, addr, text, rel, sec):
        p = text.split('#')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if any('R_LARCH_PCALA' in x[1] or 'CALL' in x[1] for x in rel):
            raise Unmodelled(text)
        R = lambda s: IDX[s.lstrip('$')]
        def setr(d, f):
            def g(t):
                v = f(t)
                if d:
                    t.r[d] = v & M
            return g
        sw = lambda v: sx(v, 32)
        lg = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'andn': lambda x, y: x & ~y, 'orn': lambda x, y: x | ~y, 'nor': lambda x, y: ~(x | y),
              'add.d': lambda x, y: x + y, 'sub.d': lambda x, y: x - y, 'add.w': lambda x, y: sw(x + y), 'sub.w': lambda x, y: sw(x - y),
              'sll.w': lambda x, y: sw(x << (y & 31)), 'srl.w': lambda x, y: sw((x & 0xffffffff) >> (y & 31)), 'sra.w': lambda x, y: sw(x) >> (y & 31), 'sll.d': lambda x, y: x << (y & 63), 'srl.d': lambda x, y: x >> (y & 63),
              'sra.d': lambda x, y: sx(x, 64) >> (y & 63), 'sltu': lambda x, y: x < y, 'slt': lambda x, y: sx(x, 64) < sx(y, 64), 'maskeqz': lambda x, y: x if y else 0, 'masknez': lambda x, y: 0 if y else x, 'mul.d': lambda x, y: x * y}
        if m in lg:
            d, a, b, f = *map(R, ops), lg[m]
            return [setr(d, lambda t: int(f(t.r[a], t.r[b])))]
        im = {'addi.d': 'add.d', 'addi.w': 'add.w', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'slli.w': 'sll.w', 'srli.w': 'srl.w', 'srai.w': 'sra.w', 'slli.d': 'sll.d', 'srli.d': 'srl.d', 'srai.d': 'sra.d', 'sltui': 'sltu', 'slti': 'slt'}
        if m in im:
            d, a, i, f = R(ops[0]), R(ops[1]), num(ops[2]) & M, lg[im[m]]
            return [setr(d, lambda t: int(f(t.r[a], i)))]
        un = {'move': lambda x: x, 'ext.w.b': lambda x: sx(x, 8), 'ext.w.h': lambda x: sx(x, 16)}
        if m in un:
            d, a, f = R(ops[0]), R(ops[1]), un[m]
            return [setr(d, lambda t: f(t.r[a]))]
        if m == 'lu12i.w':
            d, v = R(ops[0]), sx(num(ops[1]) << 12, 32)
            return [setr(d, lambda t: v)]
        if m in ('lu32i.d', 'lu52i.d'):
            d = R(ops[0])
            if m == 'lu32i.d':
                v = num(ops[1])
                return [setr(d, lambda t: t.r[d] & 0xffffffff | v << 32)]
            a, v = R(ops[1]), num(ops[2])
            return [setr(d, lambda t: t.r[a] & (1 << 52) - 1 | v << 52)]
        if m in ('bstrpick.d', 'bstrpick.w', 'bstrins.d', 'bstrins.w'):
            d, a, h, l = R(ops[0]), R(ops[1]), num(ops[2]), num(ops[3])
            k = (1 << h - l + 1) - 1
            w = (lambda v: sw(v)) if m.endswith('w') else (lambda v: v)
            if 'pick' in m:
                return [setr(d, lambda t: w(t.r[a] >> l & k))]
            return [setr(d, lambda t: w(t.r[d] & ~(k << l) | (t.r[a] & k) << l))]
        br = {'beq': lambda x, y: x == y, 'bne': lambda x, y: x != y, 'bltu': lambda x, y: x < y, 'bgeu': lambda x, y: x >= y, 'blt': lambda x, y: sx(x, 64) < sx(y, 64), 'bge': lambda x, y: sx(x, 64) >= sx(y, 64)}
        if m in br:
            a, b, tg, f = R(ops[0]), R(ops[1]), addr + num(ops[2]), br[m]
            def go(t):
                t.mem.fence(t, 'branch')
                if f(t.r[a], t.r[b]):
                    t.npc = tg
            return [go]
        if m in ('beqz', 'bnez'):
            a, tg = R(ops[0]), addr + num(ops[1])
            def go(t):
                t.mem.fence(t, 'branch')
                if (t.r[a] == 0) == (m == 'beqz'):
                    t.npc = tg
            return [go]
        if m == 'b':
            tg = addr + num(ops[0])
            def go(t):
                t.npc = tg
            return [go]
        if m == 'ret':
            def go(t):
                t.npc = t.r[1]
            return [go]
        if m == 'nop':
            return [lambda t: None]
        if m == 'dbar':
            h = num(ops[0])
            if h == 0:
                k = [('RW', 'RW')]
            elif h >> 4 == 1:
                b = ('' if h & 8 else 'R') + ('' if h & 4 else 'W')
                a = ('' if h & 2 else 'R') + ('' if h & 1 else 'W')
                k = [(b, a)]
            elif h == 0x700:
                k = []
            else:
                k = [('RW', 'RW')]      # unknown hints behave as 0
            return [lambda t: t.mem.fence(t, k)]
        a = re.fullmatch(r'(ld|st)(x?)\.([bhwd])(u?)', m) or re.fullmatch(r'(ldptr|stptr)()\.([wd])()', m)
        if a:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[a.group(3)]
            r, b = R(ops[0]), R(ops[1])
            if a.group(2):
                k = R(ops[2])
                ad = lambda t: t.r[b] + t.r[k] & M
            else:
                o = num(ops[2])
                ad = lambda t: t.r[b] + o & M
            if a.group(1).startswith('ld'):
                return [setr(r, lambda t: t.mem.rd(t, ad(t), n) if a.group(4) else sx(t.mem.rd(t, ad(t), n), 8 * n))]
            return [lambda t: t.mem.wr(t, ad(t), n, t.r[r])]
        a = re.fullmatch(r'(ll|sc)\.([wd])', m)
        if a:
            n, r, b, o = {'w': 4, 'd': 8}[a.group(2)], R(ops[0]), R(ops[1]), num(ops[2])
            if a.group(1) == 'll':
                return [setr(r, lambda t: sx(t.mem.ll(t, t.r[b] + o & M, n), 8 * n))]
            return [setr(r, lambda t: 1 if t.mem.sc(t, t.r[b] + o & M, n, t.r[r], 'F') else 0)]
        a = re.fullmatch(r'am(swap|cas|add|and|or|xor)(_db)?\.([bhwd])', m)
        if a:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8}[a.group(3)]
            d, s, b, k, tg = R(ops[0]), R(ops[1]), R(ops[2]), a.group(1), 'F' if a.group(2) else ''
            msk = (1 << 8 * n) - 1
            if d in (s, b) and d:
                raise Unmodelled(text + ' is undefined')
            def go(t):
                v = t.r[s]
                if k == 'cas':
                    e = t.r[d] & msk
                    f = lambda o: v if o == e else None
                else:
                    f = {'swap': lambda o: v, 'add': lambda o: o + v, 'and': lambda o: o & v, 'or': lambda o: o | v, 'xor': lambda o: o ^ v}[k]
                return sx(t.mem.rmw(t, t.r[b], n, f, tg), 8 * n)
            return [setr(d, go)]
        raise Unmodelled(text)
