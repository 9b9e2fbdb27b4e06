from core import *
G, O, L, I = 0, 8, 16, 24
NAMES = {f'{c}{i}': b + i for c, b in (('g', 0), ('o', 8), ('l', 16), ('i', 24)) for i in range(8)}
NAMES.update(sp=14, fp=30)

class Arch(Base):
    end, high, nreg = 'big', True, 32
    def __init__(self, bits):
        self.bits, self.word, self.m = bits, bits // 8, (1 << bits) - 1
        self.bias = 2047 if bits == 64 else 0
        # the caller's window, its global and frame registers
        self.callee = [14, 15] + list(range(16, 32)) + ([6, 7] if bits == 32 else [7])
        self.redzone = 320
    def rname(self, k):
        return '%' + 'goli'[k // 8] + str(k % 8)
    def start(self, t, arg, sp):
        t.r[0], t.r[8], t.r[14], t.r[15] = 0, arg, (sp & ~15) - self.bias, RET - 8
        t.x['win'] = []
        t.x['icc'] = t.x['xcc'] = (0, 0, 0, 0)
    def decode(self, addr, text, rel, sec):
        p = text.split('!')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        B, M = self.bits, self.m
        def R(s):
            return NAMES[s[1:]]
        def val(s):
            if s[0] == '%':
                k = R(s)
                return lambda t: t.r[k]
            v = num(s) & M
            return lambda t: v
        def setr(d, f):
            def g(t):
                v = f(t)
                if d:
                    t.r[d] = int(v) & M
            return g
        w = lambda v: v & 0xffffffff
        def setcc(t, x, y, r, sub):
            for n, b in (('icc', 32), ('xcc', 64)):
                k = (1 << b) - 1
                if sub is None:
                    t.x[n] = (r >> b - 1 & 1, int(r & k == 0), 0, 0)
                elif sub:
                    t.x[n] = (x - y >> b - 1 & 1, int(x - y & k == 0), int(sx(x, b) - sx(y, b) != sx(x - y, b)), int(x & k < y & k) if False else int((x & k) < (y & k)))
                else:
                    t.x[n] = (x + y >> b - 1 & 1, int(x + y & k == 0), int(sx(x, b) + sx(y, b) != sx(x + y, b)), int((x & k) + (y & k) > k))
        CC = {'a': lambda f: True, 'n': lambda f: False, 'e': lambda f: f[1], 'z': lambda f: f[1], 'ne': lambda f: not f[1], 'nz': lambda f: not f[1], 'g': lambda f: not (f[1] or f[0] ^ f[2]), 'le': lambda f: f[1] or f[0] ^ f[2], 'ge': lambda f: not f[0] ^ f[2], 'l': lambda f: f[0] ^ f[2],
              'gu': lambda f: not (f[3] or f[1]), 'leu': lambda f: f[3] or f[1], 'cc': lambda f: not f[3], 'geu': lambda f: not f[3], 'cs': lambda f: f[3], 'lu': lambda f: f[3], 'pos': lambda f: not f[0], 'neg': lambda f: f[0]}
        f3 = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'andn': lambda x, y: x & ~y, 'orn': lambda x, y: x | ~y, 'xnor': lambda x, y: ~(x ^ y), 'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
              'sll': lambda x, y: x << (y & 31), 'srl': lambda x, y: w(x) >> (y & 31), 'sra': lambda x, y: sx(x, 32) >> (y & 31), 'sllx': lambda x, y: x << (y & 63), 'srlx': lambda x, y: x >> (y & 63), 'srax': lambda x, y: sx(x, 64) >> (y & 63)}
        k = m[:-2] if m.endswith('cc') and m[:-2] in f3 else m
        if k in f3 and len(ops) == 3:
            a, b, d, f, cc = R(ops[0]), val(ops[1]), R(ops[2]), f3[k], k != m
            def go(t):
                x, y = t.r[a], b(t)
                r = f(x, y) & M
                if cc:
                    setcc(t, x, y, r, k == 'sub' if k in ('add', 'sub') else None)
                if d:
                    t.r[d] = r
            return [go]
        if m in ('addx', 'addc', 'subx', 'subc'):
            a, b, d = R(ops[0]), val(ops[1]), R(ops[2])
            s = 1 if m[0] == 'a' else -1
            return [setr(d, lambda t: t.r[a] + s * (b(t) + t.x['icc'][3]))]
        if m == 'cmp':
            a, b = R(ops[0]), val(ops[1])
            return [lambda t: setcc(t, t.r[a], b(t), 0, True)]
        if m in ('tst', 'btst'):
            a = R(ops[-1])
            return [lambda t: setcc(t, 0, 0, t.r[a], None)]
        if m == 'mov' or m in ('not', 'neg'):
            v, d = val(ops[0]), R(ops[-1])
            f = {'mov': lambda x: x, 'not': lambda x: ~x, 'neg': lambda x: -x}[m]
            return [setr(d, lambda t: f(v(t)))]
        if m == 'clr' and ops[0][0] == '%':
            return [setr(R(ops[0]), lambda t: 0)]
        if m == 'sethi':
            d, v = R(ops[1]), num(ops[0].replace('%hi(', '').rstrip(')')) << 10
            return [setr(d, lambda t: v)]
        if m == 'nop':
            return [lambda t: None]
        a = re.fullmatch(r'mov(r?)(\w+)', m)
        if a and len(ops) == 3:
            v, d = val(ops[1]), R(ops[2])
            if a.group(1) and a.group(2) in ('z', 'nz', 'lz', 'lez', 'gz', 'gez'):
                s = R(ops[0])
                c = {'z': lambda x: x == 0, 'nz': lambda x: x != 0, 'lz': lambda x: x < 0, 'lez': lambda x: x <= 0, 'gz': lambda x: x > 0, 'gez': lambda x: x >= 0}[a.group(2)]
                return [setr(d, lambda t: v(t) if c(sx(t.r[s], B)) else t.r[d])]
            c, cc = CC[a.group(1) + a.group(2)], ops[0][1:]
            if ops[1][0] != '%':        # an 11-bit immediate, printed without its sign
                k = sx(int(ops[1], 0), 11)
                v = lambda t: k
            return [setr(d, lambda t: v(t) if c(t.x[cc]) else t.r[d])]
        # branches
        a = re.fullmatch(r'b(r?)(\w*?)(,a)?(,p[nt])?', m)
        if a and ops:
            an = a.group(3)
            tg = num(ops[-1])
            if a.group(1) and a.group(2) in ('z', 'nz', 'lz', 'lez', 'gz', 'gez'):
                s = R(ops[0])
                c = {'z': lambda x: x == 0, 'nz': lambda x: x != 0, 'lz': lambda x: x < 0, 'lez': lambda x: x <= 0, 'gz': lambda x: x > 0, 'gez': lambda x: x >= 0}[a.group(2)]
                cond = lambda t: c(sx(t.r[s], B))
                always = False
            else:
                n = a.group(1) + a.group(2) or 'a'
                c, cc = CC[n], ops[0][1:] if len(ops) > 1 else 'icc'
                cond = lambda t: c(t.x[cc])
                always = n == 'a'
            def go(t):
                t.mem.fence(t, 'branch')
                return tg if cond(t) else None
            return Delayed(go, (lambda taken: always or not taken) if an else None)
        if m == 'ret':
            return Delayed(lambda t: t.r[31] + 8 & M)
        if m == 'retl':
            return Delayed(lambda t: t.r[15] + 8 & M)
        if m == 'jmp':
            a = re.fullmatch(r'(%\w+)\+?(\w+)?', ops[0])
            k, o = R(a.group(1)), int(a.group(2) or '0', 0)
            return Delayed(lambda t: t.r[k] + o & M)
        if m == 'save':
            a, b, d = R(ops[0]), val(ops[1]), R(ops[2])
            def go(t):
                v = t.r[a] + b(t) & M
                t.x['win'].append(t.r[16:32])
                t.r[24:32] = t.r[8:16]
                for i in range(8, 24):
                    t.r[i] = i * 0x01010101 ^ t.r[i] & M    # the new window holds nothing in particular
                if d:
                    t.r[d] = v
            return [go]
        if m == 'restore':
            if ops:
                a, b, d = R(ops[0]), val(ops[1]), R(ops[2])
            def go(t):
                v = t.r[a] + b(t) & M if ops else 0
                if not t.x['win']:
                    raise Fault('restore without save')
                t.r[8:16] = t.r[24:32]
                t.r[16:32] = t.x['win'].pop()
                if ops and d:
                    t.r[d] = v
            return [go]
        if m in ('membar', 'stbar'):
            if m == 'stbar':
                k = [('W', 'W')]
            elif not ops:
                k = [('RW', 'RW')]
            else:
                k = []
                for o in text.split(None, 1)[1].split('|'):
                    o = o.strip().lstrip('#')
                    k += {'LoadLoad': [('R', 'R')], 'LoadStore': [('R', 'W')], 'StoreLoad': [('W', 'R')], 'StoreStore': [('W', 'W')], 'MemIssue': [('RW', 'RW')], 'Sync': [('RW', 'RW')], 'Lookaside': [('W', 'R')]}[o]
            return [lambda t: t.mem.fence(t, k)]
        def mem(s):
            a = re.fullmatch(r'\[(%\w+)(?:\+(-?\w+|%\w+))?\]', s)
            b, o = R(a.group(1)), a.group(2)
            if o and o[0] == '%':
                k = R(o)
                return lambda t: t.r[b] + t.r[k] & M
            o = int(o or '0', 0)
            return lambda t: t.r[b] + o & M
        ld = {'ldub': (1, 0), 'ldsb': (1, 1), 'lduh': (2, 0), 'ldsh': (2, 1), 'ld': (4, 0), 'lduw': (4, 0), 'ldsw': (4, 1), 'ldx': (8, 0)}
        if m in ld:
            (n, s), ad, d = ld[m], mem(ops[0]), R(ops[1])
            return [setr(d, lambda t: sx(t.mem.rd(t, ad(t), n), 8 * n) if s else t.mem.rd(t, ad(t), n))]
        st = {'stb': 1, 'sth': 2, 'st': 4, 'stw': 4, 'stx': 8}
        if m in st:
            n, s, ad = st[m], R(ops[0]), mem(ops[1])
            return [lambda t: t.mem.wr(t, ad(t), n, t.r[s])]
        if m in ('ldd', 'std'):
            ad, k = mem(ops[0] if m == 'ldd' else ops[1]), R(ops[1] if m == 'ldd' else ops[0])
            if m == 'ldd':
                def go(t):
                    v = t.mem.rd(t, ad(t), 8)
                    t.r[k], t.r[k + 1] = v >> 32, w(v)
                return [go]
            return [lambda t: t.mem.wr(t, ad(t), 8, w(t.r[k]) << 32 | w(t.r[k + 1]))]
        if m in ('cas', 'casx', 'casa', 'casxa'):
            s = re.sub(r'\]\s*\w+|\]\s*#\w+', ']', ops[0])
            n, ad, c, d = 8 if 'x' in m else 4, mem(s), R(ops[1]), R(ops[2])
            k = (1 << 8 * n) - 1
            def go(t):
                e, v = t.r[c] & k, t.r[d] & k
                return t.mem.rmw(t, ad(t), n, lambda o: v if o == e else None, '')
            return [setr(d, go)]
        if m in ('swap', 'swapa', 'ldstub', 'ldstuba'):
            ad, d, n = mem(re.sub(r'\]\s*\w+', ']', ops[0])), R(ops[1]), 4 if m[0] == 's' else 1
            return [setr(d, lambda t: (lambda v: t.mem.rmw(t, ad(t), n, lambda o: v, ''))(t.r[d] if n == 4 else 255))]
        raise Unmodelled(text)
