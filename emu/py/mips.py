from core import *
NAMES = {'zero': 0, 'at': 1, 'gp': 28, 'sp': 29, 'fp': 30, 'ra': 31}

class Arch(Base):
    high = True
    nreg = 32
    objdump = []
    def __init__(self, bits, end):
        self.bits, self.end, self.word, self.m = bits, end, bits // 8, (1 << bits) - 1
        self.callee = list(range(16, 24)) + [29, 30] + ([28] if bits == 64 else [])
    def rname(self, k):
        return f'${k}'
    def start(self, t, arg, sp):
        for i in range(32):     # 32-bit values are kept sign-extended by the convention; registers at entry are arbitrary
            pass
        t.r[0], t.r[31], t.r[29], t.r[4] = 0, RET, sp, arg
    def decode(self, addr, text, rel, sec):
        p = text.split('#')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if m == 'j' and len(rel) == 1 and rel[0][1].split() == ['R_MIPS_26', self.cursec]:
            m = 'b'
        elif rel and not all('R_MIPS_PC' in x[1] for x in rel):
            raise Unmodelled(text + str(rel))
        B, M = self.bits, self.m
        def R(s):
            s = s.lstrip('$')
            return int(s) if s.isdigit() else NAMES[s]
        def setr(d, f):
            def g(t):
                v = f(t)
                if d:
                    t.r[d] = v & M
            return g
        sw = lambda v: sx(v, 32)
        w = lambda v: v & 0xffffffff
        f3 = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'nor': lambda x, y: ~(x | y), 'addu': lambda x, y: sw(x + y), 'subu': lambda x, y: sw(x - y), 'daddu': lambda x, y: x + y, 'dsubu': lambda x, y: x - y,
              'sll': lambda x, y: sw(x << (y & 31)), 'srl': lambda x, y: sw(w(x) >> (y & 31)), 'sra': lambda x, y: sw(x) >> (y & 31), 'dsll': lambda x, y: x << (y & 63), 'dsrl': lambda x, y: x >> (y & 63), 'dsra': lambda x, y: sx(x, 64) >> (y & 63),
              'sltu': lambda x, y: x < y, 'slt': lambda x, y: sx(x, B) < sx(y, B), 'seleqz': lambda x, y: 0 if y else x, 'selnez': lambda x, y: x if y else 0}
        al = {'sllv': 'sll', 'srlv': 'srl', 'srav': 'sra', 'dsllv': 'dsll', 'dsrlv': 'dsrl', 'addiu': 'addu', 'daddiu': 'daddu', 'andi': 'and', 'ori': 'or', 'xori': 'xor', 'sltiu': 'sltu', 'slti': 'slt'}
        k = al.get(m, m)
        if k in f3 and len(ops) == 3:
            d, a, f = R(ops[0]), R(ops[1]), f3[k]
            if ops[2][0] == '$':
                b = R(ops[2])
                return [setr(d, lambda t: int(f(t.r[a], t.r[b])))]
            i = num(ops[2]) & M
            return [setr(d, lambda t: int(f(t.r[a], i)))]
        if m in ('dsll32', 'dsrl32', 'dsra32'):
            d, a, i = R(ops[0]), R(ops[1]), num(ops[2]) + 32
            f = f3[m[:-2]]
            return [setr(d, lambda t: f(t.r[a], i))]
        un = {'move': lambda x: x, 'not': lambda x: ~x, 'negu': lambda x: sw(-x), 'seb': lambda x: sx(x, 8), 'seh': lambda x: sx(x, 16)}
        if m in un:
            d, a, f = R(ops[0]), R(ops[1]), un[m]
            return [setr(d, lambda t: f(t.r[a]))]
        if m in ('movn', 'movz'):
            d, a, c = map(R, ops)
            return [setr(d, lambda t: t.r[a] if (t.r[c] != 0) == (m == 'movn') else t.r[d])]
        if m == 'lui':
            d, v = R(ops[0]), sx(num(ops[1]) << 16, 32)
            return [setr(d, lambda t: v)]
        br = {'beq': lambda x, y: x == y, 'bne': lambda x, y: x != y}
        c = m[:-1] if m in ('beqc', 'bnec', 'beqzc', 'bnezc', 'bc') else m
        compact = c != m
        if c in ('beq', 'bne', 'beqz', 'bnez', 'b', 'bc'):
            tg = num(ops[-1])
            if c in ('beq', 'bne'):
                a, b, f = R(ops[0]), R(ops[1]), br[c]
                cond = lambda t: f(t.r[a], t.r[b])
            elif c in ('beqz', 'bnez'):
                a = R(ops[0])
                cond = lambda t: (t.r[a] == 0) == (c == 'beqz')
            else:
                cond = lambda t: True
            def go(t):
                t.mem.fence(t, 'branch')
                return tg if cond(t) else None
            if compact:
                def now(t):
                    x = go(t)
                    if x is not None:
                        t.npc = x
                return [now]
            return Delayed(go)
        if m == 'jr':
            a = R(ops[0])
            return Delayed(lambda t: t.r[a])
        if m == 'jrc':
            a = R(ops[0])
            def go(t):
                t.npc = t.r[a]
            return [go]
        if m in ('nop', 'ssnop', 'ehb'):
            return [lambda t: None]
        if m == 'sync':
            k = num(ops[0]) if ops else 0
            k = {0: [('RW', 'RW')], 4: [('W', 'W')], 0x10: [('RW', 'RW')], 0x11: [('R', 'RW')], 0x12: [('RW', 'W')], 0x13: [('R', 'R')]}[k]
            return [lambda t: t.mem.fence(t, k)]
        sz = {'b': 1, 'h': 2, 'w': 4, 'd': 8}
        def mem(s):
            a = re.fullmatch(r'(-?\w+)?\((\$\w+)\)', s)
            return int(a.group(1) or '0', 0), R(a.group(2))
        a = re.fullmatch(r'(l|s)([bhwd])(u?)', m)
        if a:
            n, r, (o, b) = sz[a.group(2)], R(ops[0]), mem(ops[1])
            if a.group(1) == 'l':
                return [setr(r, lambda t: t.mem.rd(t, t.r[b] + o & M, n) if a.group(3) else sx(t.mem.rd(t, t.r[b] + o & M, n), 8 * n))]
            return [lambda t: t.mem.wr(t, t.r[b] + o & M, n, t.r[r])]
        if m in ('ll', 'lld'):
            n, r, (o, b) = 4 if m == 'll' else 8, R(ops[0]), mem(ops[1])
            return [setr(r, lambda t: sx(t.mem.ll(t, t.r[b] + o & M, n, ''), 8 * n))]
        if m in ('sc', 'scd'):
            n, r, (o, b) = 4 if m == 'sc' else 8, R(ops[0]), mem(ops[1])
            return [setr(r, lambda t: 1 if t.mem.sc(t, t.r[b] + o & M, n, t.r[r], '') else 0)]
        raise Unmodelled(text)
