from core import *
NAMES = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1'] + [f'a{i}' for i in range(8)] + [f's{i}' for i in range(2, 12)] + ['t3', 't4', 't5', 't6']
IDX = {n: i for i, n in enumerate(NAMES)}
IDX['fp'] = 8
FS = {'r': 'R', 'w': 'W', 'i': '', 'o': ''}

class Arch(Base):
    amo_both = True
    def __init__(self, bits):
        self.bits = bits
        self.m = (1 << bits) - 1
        self.word = bits // 8
        self.objdump = ['--mattr=+a,+m,+zacas,+zabha,+zaamo,+zalrsc']
        self.callee = [2, 3, 4, 8, 9] + list(range(18, 28))
    def rname(self, k):
        return NAMES[k]
    def start(self, t, arg, sp):
        t.r[0], t.r[1], t.r[2], t.r[10] = 0, RET, sp, arg
    def decode(self, addr, text, rel, sec):
        p = text.split('#')[0].split(None, 1)
        m, ops = p[0], split(p[1]) if len(p) > 1 else []
        B, M = self.bits, self.m
        def R(s):
            return IDX[s]
        def setr(f, d):
            if d == 0:
                return lambda t: f(t) and None
            def g(t):
                t.r[d] = f(t) & M
            return g
        def mem(s):
            a = re.fullmatch(r'(-?\w+)?\((\w+)\)', s)
            return int(a.group(1) or '0', 0), R(a.group(2))
        if any('R_RISCV' in x[1] for x in rel):
            rr = [x[1] for x in rel if 'R_RISCV_RELAX' not in x[1]]
            if any('CALL' in x or 'HI20' in x or 'LO12' in x for x in rr):
                raise Unmodelled(text + str(rr))
        sw = lambda v: sx(v, 32)
        loads = {'lb': (1, 1), 'lbu': (1, 0), 'lh': (2, 1), 'lhu': (2, 0), 'lw': (4, 1), 'lwu': (4, 0), 'ld': (8, 1)}
        if m in loads:
            n, s = loads[m]
            d, (o, b) = R(ops[0]), mem(ops[1])
            return [setr(lambda t: sx(t.mem.rd(t, (t.r[b] + o) & M, n), 8 * n) if s else t.mem.rd(t, (t.r[b] + o) & M, n), d)]
        st = {'sb': 1, 'sh': 2, 'sw': 4, 'sd': 8}
        if m in st:
            n = st[m]
            s, (o, b) = R(ops[0]), mem(ops[1])
            return [lambda t: t.mem.wr(t, (t.r[b] + o) & M, n, t.r[s])]
        b3 = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
              'sll': lambda x, y: x << (y & (B - 1)), 'srl': lambda x, y: x >> (y & (B - 1)), 'sra': lambda x, y: sx(x, B) >> (y & (B - 1)),
              'slt': lambda x, y: sx(x, B) < sx(y, B), 'sltu': lambda x, y: x < y, 'andn': lambda x, y: x & ~y, 'orn': lambda x, y: x | ~y, 'xnor': lambda x, y: ~(x ^ y),
              'mul': lambda x, y: x * y, 'addw': lambda x, y: sw(x + y), 'subw': lambda x, y: sw(x - y), 'sllw': lambda x, y: sw(x << (y & 31)), 'srlw': lambda x, y: sw((x & 0xffffffff) >> (y & 31)),
              'sraw': lambda x, y: sw(x) >> (y & 31), 'czero.eqz': lambda x, y: 0 if y == 0 else x, 'czero.nez': lambda x, y: 0 if y else x}
        imm = {k + 'i': k for k in ('add', 'and', 'or', 'xor', 'sll', 'srl', 'sra', 'slt')}
        imm.update({'sltiu': 'sltu', 'addiw': 'addw', 'slliw': 'sllw', 'srliw': 'srlw', 'sraiw': 'sraw'})
        if m in b3 and len(ops) == 3 and ops[2] in IDX:
            f, d, a, b = b3[m], *map(R, ops)
            return [setr(lambda t: f(t.r[a], t.r[b]), d)]
        if m in imm or m in b3 and len(ops) == 3:
            f, d, a, i = b3[imm.get(m, m)], R(ops[0]), R(ops[1]), num(ops[2]) & M
            return [setr(lambda t: f(t.r[a], i), d)]
        un = {'mv': lambda x: x, 'not': lambda x: ~x, 'neg': lambda x: -x, 'negw': lambda x: sw(-x), 'sext.w': sw, 'seqz': lambda x: x == 0, 'snez': lambda x: x != 0, 'zext.b': lambda x: x & 255,
              'zext.h': lambda x: x & 0xffff, 'zext.w': lambda x: x & 0xffffffff, 'sext.b': lambda x: sx(x, 8), 'sext.h': lambda x: sx(x, 16), 'sltz': lambda x: x >> (B - 1), 'sgtz': lambda x: sx(x, B) > 0}
        if m in un:
            f, d, a = un[m], R(ops[0]), R(ops[1])
            return [setr(lambda t: int(f(t.r[a])), d)]
        if m == 'li' or m == 'lui':
            v = num(ops[1]) << 12 if m == 'lui' else num(ops[1])
            v = sx(v, 32) if m == 'lui' else v
            return [setr(lambda t: v, R(ops[0]))]
        br = {'beq': lambda x, y: x == y, 'bne': lambda x, y: x != y, 'bltu': lambda x, y: x < y, 'bgeu': lambda x, y: x >= y, 'blt': lambda x, y: sx(x, B) < sx(y, B), 'bge': lambda x, y: sx(x, B) >= sx(y, B)}
        if m in br:
            f, a, b, tg = br[m], R(ops[0]), R(ops[1]), num(ops[2].split()[0])
            def go(t):
                t.mem.fence(t, 'branch')
                if f(t.r[a], t.r[b]):
                    t.npc = tg
            return [go]
        if m in ('beqz', 'bnez', 'bltz', 'bgez', 'blez', 'bgtz'):
            f = {'beqz': lambda x: x == 0, 'bnez': lambda x: x != 0, 'bltz': lambda x: sx(x, B) < 0, 'bgez': lambda x: sx(x, B) >= 0, 'blez': lambda x: sx(x, B) <= 0, 'bgtz': lambda x: sx(x, B) > 0}[m]
            a, tg = R(ops[0]), num(ops[1].split()[0])
            def go(t):
                t.mem.fence(t, 'branch')
                if f(t.r[a]):
                    t.npc = tg
            return [go]
        if m == 'j':
            tg = num(ops[0].split()[0])
            def go(t):
                t.npc = tg
            return [go]
        if m == 'ret':
            def go(t):
                t.npc = t.r[1]
            return [go]
        if m in ('nop', 'pause', 'c.nop'):
            return [lambda t: None]
        if m == 'fence' or m == 'fence.tso':
            if m == 'fence.tso':
                k = [('R', 'RW'), ('W', 'W')]
            elif not ops:
                k = [('RW', 'RW')]
            else:
                k = [tuple(''.join(FS[c] for c in o) for o in ops)]
            return [lambda t: t.mem.fence(t, k)]
        a = re.fullmatch(r'(lr|sc)\.([wd])(\.aq|\.rl|\.aqrl)?', m)
        if a:
            n = 4 if a.group(2) == 'w' else 8
            tag = a.group(3) or ''
            aq, rl = 'aq' in tag, 'rl' in tag
            if a.group(1) == 'lr':
                tg = ('A' if aq else '') + ('L' if rl else '')
                d, (o, b) = R(ops[0]), mem(ops[1])
                return [setr(lambda t: sx(t.mem.ll(t, t.r[b], n, tg), 8 * n), d)]
            tg = ('A' if aq else '') + ('L' if rl else '')
            d, s, (o, b) = R(ops[0]), R(ops[1]), mem(ops[2])
            return [setr(lambda t: 0 if t.mem.sc(t, t.r[b], n, t.r[s], tg) else 1, d)]
        a = re.fullmatch(r'amo(swap|or|and|xor|add|cas)\.([bhwdq])(\.aq|\.rl|\.aqrl)?', m)
        if a:
            n = {'b': 1, 'h': 2, 'w': 4, 'd': 8, 'q': 16}[a.group(2)]
            tag = a.group(3) or ''
            tg = ('A' if 'aq' in tag else '') + ('L' if 'rl' in tag else '')
            d, s, (o, b) = R(ops[0]), R(ops[1]), mem(ops[2])
            k = a.group(1)
            if n > self.word and k == 'cas':
                h = 8 * self.word
                def pair(t, i):
                    return (t.r[i] | t.r[i + 1] << h) if i else 0
                def go(t):
                    e = pair(t, d)
                    v = pair(t, s)
                    o = t.mem.rmw(t, t.r[b], n, lambda x: v if x == e else None, tg)
                    if d:
                        t.r[d], t.r[d + 1] = o & M, o >> h
                return [go]
            mask = (1 << 8 * n) - 1
            def go(t):
                v = t.r[s]
                if k == 'cas':
                    e = t.r[d] & mask
                    f = lambda x: v if x == e else None
                else:
                    f = {'swap': lambda x: v, 'or': lambda x: x | v, 'and': lambda x: x & v, 'xor': lambda x: x ^ v, 'add': lambda x: x + v}[k]
                o = t.mem.rmw(t, t.r[b], n, f, tg)
                if d:
                    t.r[d] = sx(o, 8 * n) & M
            return [go]
        raise Unmodelled(text)
