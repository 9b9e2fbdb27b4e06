from core import *
M = 0xffffffff
class Arch(Base):
    """A packet is one instruction: it reads every register before it writes any, but for .new operands."""
    def __init__(self):
        self.bits, self.word, self.nreg, self.container = 32, 4, 36, 4     # 32..35: p0..p3
        self.callee = list(range(16, 28)) + [29, 30]
    def rname(self, k):
        return f'r{k}' if k < 32 else f'p{k - 32}'
    def start(self, t, arg, sp):
        t.r[0], t.r[29], t.r[31] = arg, sp & ~7, RET
        for k in range(32, 36):
            t.r[k] &= 0xff
    def group(self, lines):
        out, cur = [], None
        for a, text, rel in lines:
            text = re.sub(r'<[^>]*>', '', text).strip()
            if text.startswith('{'):
                cur = [a, '', []]
                text = text[1:]
            end = text.endswith('}')
            cur[1] += ('; ' if cur[1] else '') + text.rstrip('} ').strip()
            cur[2] += rel
            if end:
                out.append(tuple(cur))
                cur = None
        return out
    def decode(self, addr, text, rel, sec):
        if rel:
            raise Unmodelled(text + str(rel))
        fs = []
        for s in text.split(';'):
            s = s.strip()
            if not s or s == 'nop' or s.startswith('immext('):
                continue
            if s.startswith('loop') or 'endloop' in s:
                raise Unmodelled(text)
            fs.append((1 if '.new' in s else 0, self.one(s)))
        fs.sort(key=lambda x: x[0])
        fs = [f for _, f in fs]
        def go(t):
            w = {}
            for f in fs:
                f(t, w)
            for k, v in w.items():
                t.r[k] = v & (M if k < 32 else 0xff)
        return [go]
    def one(self, s):
        cond = lambda t, w: True
        a = re.fullmatch(r'if \((!?)p([0-3])(\.new)?\) (.*)', s)
        if a:
            k, want = 32 + int(a.group(2)), 0 if a.group(1) else 1
            if a.group(3):
                cond = lambda t, w: w[k] & 1 == want
            else:
                cond = lambda t, w: t.r[k] & 1 == want
            s = a.group(4)
        f = self.plain(s.strip())
        return lambda t, w: f(t, w) if cond(t, w) else None
    def plain(self, s):
        def val(x):
            """operand: register, pair, complement, .new register, predicate, constant or function; its width is fn.w (None: a constant)"""
            x = x.strip()
            def mk(f, w):
                f.w = w
                return f
            a = re.fullmatch(r'(~?)r(\d+):(\d+)', x)
            if a:
                h, l, n = int(a.group(2)), int(a.group(3)), (1 << 64) - 1 if a.group(1) else 0
                return mk(lambda t, w: (t.r[h] << 32 | t.r[l]) ^ n, 64)
            a = re.fullmatch(r'(~?)r(\d+)(\.new)?', x)
            if a:
                k, n = int(a.group(2)), M if a.group(1) else 0
                if a.group(3):
                    return mk(lambda t, w: w[k] ^ n, 32)
                return mk(lambda t, w: t.r[k] ^ n, 32)
            a = re.fullmatch(r'(!?)p([0-3])(\.new)?', x)
            if a:
                k, n = 32 + int(a.group(2)), 0xff if a.group(1) else 0
                if a.group(3):
                    return mk(lambda t, w: w[k] ^ n, 8)
                return mk(lambda t, w: t.r[k] ^ n, 8)
            a = re.fullmatch(r'##?(-?\w+)', x)
            if a:
                v = int(a.group(1), 0)
                return mk(lambda t, w: v, None)
            a = re.fullmatch(r'([!+]?[\w.]+)\((.*)\)', x)
            if a:
                return fun(a.group(1), [val(y) for y in split(a.group(2))])
            raise Unmodelled(s)
        def sh(n, x, c, b):
            """shifts; a register's amount is its low seven bits, signed"""
            if c < 0:
                n, c = {'asl': 'asr', 'lsl': 'lsr', 'asr': 'asl', 'lsr': 'lsl'}[n], -c
            return x << c if n in ('asl', 'lsl') else sx(x, b) >> c if n == 'asr' else (x & (1 << b) - 1) >> c
        def fun(n, args):
            """functions of the operands, by their width"""
            ws = [a.w for a in args]
            B = 64 if 64 in ws else 32
            K = (1 << B) - 1
            f, w = None, B
            if ws and ws[0] == 8 and n in ('and', 'or', 'xor', 'not'):
                f, w = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'not': lambda a: a ^ 0xff}[n], 8
            elif n in ('asl', 'lsl', 'asr', 'lsr'):
                w = b = ws[0] or 32
                f = (lambda x, c: sh(n, x, c, b)) if ws[1] is None else (lambda x, c: sh(n, x, sx(c & 127, 7), b))
            elif n[:3] == 'cmp' or n[:4] == '!cmp':
                inv = n[0] == '!'
                a = re.fullmatch(r'!?cmp([bh]?)\.(eq|gt|gtu)', n)
                if a:
                    b = {'': B, 'b': 8, 'h': 16}[a.group(1)]
                    k = (1 << b) - 1
                    g = {'eq': lambda x, y: x & k == y & k, 'gtu': lambda x, y: x & k > y & k, 'gt': lambda x, y: sx(x & k, b) > sx(y & k, b)}[a.group(2)]
                    f, w = lambda x, y: int(g(x, y) != inv), 1
            elif n.lstrip('!') in ('tstbit', 'bitsclr', 'bitsset'):
                inv = n[0] == '!'
                h = {'tstbit': lambda x, y: x >> y & 1 if y >= 0 else 0, 'bitsclr': lambda x, y: x & y & K == 0, 'bitsset': lambda x, y: x & y & K == y & K}[n.lstrip('!')]
                f, w = lambda x, y: int(bool(h(x, y)) != inv), 1
            else:
                f = {('add', 2): lambda a, b: a + b, ('sub', 2): lambda a, b: a - b, ('and', 2): lambda a, b: a & b, ('or', 2): lambda a, b: a | b, ('xor', 2): lambda a, b: a ^ b,
                     ('zxth', 1): lambda a: a & 0xffff, ('zxtb', 1): lambda a: a & 255, ('sxth', 1): lambda a: sx(a & 0xffff, 16), ('sxtb', 1): lambda a: sx(a & 255, 8), ('sxtw', 1): lambda a: sx(a & M, 32),
                     ('mux', 3): lambda p, a, b: a if p & 1 else b, ('combine', 2): lambda a, b: (a & M) << 32 | b & M,
                     ('clrbit', 2): lambda a, b: a & ~(1 << b), ('setbit', 2): lambda a, b: a | 1 << b, ('togglebit', 2): lambda a, b: a ^ 1 << b,
                     ('neg', 1): lambda a: -a, ('not', 1): lambda a: ~a, ('aslh', 1): lambda a: a << 16, ('asrh', 1): lambda a: sx(a, 32) >> 16, ('addasl', 3): lambda a, b, c: a + (b << c),
                     ('cl0', 1): lambda a: B - a.bit_length(), ('cl1', 1): lambda a: B - (~a & K).bit_length(),
                     ('min', 2): lambda a, b: min(sx(a & K, B), sx(b & K, B)), ('max', 2): lambda a, b: max(sx(a & K, B), sx(b & K, B)), ('minu', 2): lambda a, b: min(a, b), ('maxu', 2): lambda a, b: max(a, b),
                     ('extractu', 3): lambda a, c, o: a >> o & (1 << c) - 1, ('extract', 3): lambda a, c, o: sx(a >> o & (1 << c) - 1, c),
                     ('mpyi', 2): lambda a, b: a * b, ('+mpyi', 2): lambda a, b: a * b, ('-mpyi', 2): lambda a, b: -a * b}.get((n, len(args)))
                if n == 'mpyu' and len(args) == 2 and ws == [32, 32]:
                    f, w = lambda a, b: a * b, 64
                if n in ('combine', 'sxtw'):
                    w = 64
                if n == 'extractu' or n == 'extract':
                    if ws[1:] != [None, None]:
                        f = None
            if f is None or None in ws[:1] and n not in ('add', 'sub', 'and', 'or', 'combine', 'setbit', 'lsl'):
                raise Unmodelled(s)
            full = (1 << w) - 1
            r = lambda t, w_: f(*[g(t, w_) for g in args]) & full
            r.w = w
            return r
        def addc(l, a):
            """64-bit addition and subtraction with carry in a predicate"""
            x, y, p = [val(v) for v in split(a.group(2))][:3]
            k, neg = 32 + int(split(a.group(2))[2].strip()[1]), (1 << 64) - 1 if a.group(1) == 'sub' else 0
            h, lo = [int(v) for v in re.findall(r'\d+', l)]
            def go(t, w):
                v = x(t, w) + (y(t, w) ^ neg) + (t.r[k] & 1)
                w[lo], w[h], w[k] = v & M, v >> 32 & M, 0xff if v >> 64 else 0
            return go
        # compare and jump in one, on a value of the same packet
        a = re.fullmatch(r'if \((!?)(cmp\.\w+)\((.*)\)\) jump(?::n?t)? (0x[0-9a-f]+)', s)
        if a:
            g, inv, tg = fun(a.group(2), [val(y) for y in split(a.group(3))]), a.group(1) == '!', int(a.group(4), 16)
            def go(t, w):
                if bool(g(t, w)) != inv:
                    t.npc = tg
            return go
        a = re.fullmatch(r'jump(?::n?t)? (0x[0-9a-f]+)', s)
        if a:
            tg = int(a.group(1), 16)
            def go(t, w):
                t.npc = tg
            return go
        a = re.fullmatch(r'jumpr(?::n?t)? r(\d+)', s)
        if a:
            k = int(a.group(1))
            def go(t, w):
                t.npc = t.r[k]
            return go
        if s in ('barrier', 'syncht'):
            return lambda t, w: t.mem.fence(t, [('RW', 'RW')])
        a = re.fullmatch(r'(\S+) ([-+&|^]?)= (.*)', s)
        if not a:
            raise Unmodelled(s)
        l, cmpd, r = a.groups()
        a = re.fullmatch(r'(add|sub)\((.*)\):carry', r)
        if a and not cmpd:
            return addc(l, a)
        if cmpd and l[0] != 'r':
            raise Unmodelled(s)
        size = {'b': 1, 'ub': 1, 'h': 2, 'uh': 2, 'w': 4, 'd': 8}
        def ea(x):
            b, _, o = x.partition('+')
            k = int(re.fullmatch(r'r(\d+)', b.strip()).group(1))
            o = int(re.fullmatch(r'##?(-?\w+)', o.strip()).group(1), 0) if o else 0
            return lambda t: t.r[k] + o & M
        # stores
        a = re.fullmatch(r'mem([bhwd])(_locked)?\(([^,)]*)(?:,p([0-3]))?\)', l)
        if a:
            n, f, v = size[a.group(1)], ea(a.group(3)), val(r)
            if a.group(2):
                p = 32 + int(a.group(4))
                def go(t, w):
                    w[p] = 0xff if t.mem.sc(t, f(t), n, v(t, w)) else 0
                return go
            return lambda t, w: t.mem.wr(t, f(t), n, v(t, w) & (1 << 8 * n) - 1)
        a = re.fullmatch(r'p([0-3])', l)
        if a:
            k = 32 + int(a.group(1))
            g = val(r)
            if g.w not in (1, 8, 32):
                raise Unmodelled(s)
            def go(t, w):
                v = g(t, w) & 0xff if g.w != 1 else 0xff if g(t, w) else 0
                w[k] = w[k] & v if g.w == 1 and k in w else v       # two compares of a packet into one predicate: both must hold
            return go
        a = re.fullmatch(r'r(\d+)(?::(\d+))?', l)
        if not a:
            raise Unmodelled(s)
        h, lo = (int(a.group(1)), int(a.group(2))) if a.group(2) else (None, int(a.group(1)))
        if h is None and r[0] == '#' and cmpd:
            raise Unmodelled(s)
        def put(w, v):
            w[lo] = v & M
            if h is not None:
                w[h] = v >> 32 & M
        a = re.fullmatch(r'mem(u?[bhwd])(_locked)?\(([^,)]*)\)', r)
        if a:
            n, f, sg = size[a.group(1)], ea(a.group(3)), a.group(1) in 'bh'
            if a.group(2):
                return lambda t, w: put(w, t.mem.ll(t, f(t), n))
            return lambda t, w: put(w, sx(t.mem.rd(t, f(t), n), 8 * n) if sg else t.mem.rd(t, f(t), n))
        old = lambda t: t.r[h] << 32 | t.r[lo] if h is not None else t.r[lo]
        a = re.fullmatch(r'insert\((.*),#(\w+),#(\w+)\)', r)
        if a and not cmpd:
            v, n, o = val(a.group(1)), int(a.group(2), 0), int(a.group(3), 0)
            return lambda t, w: put(w, old(t) & ~((1 << n) - 1 << o) | (v(t, w) & (1 << n) - 1) << o)
        v = val(r)
        if h is not None and v.w == 32:
            raise Unmodelled(s)
        if cmpd:
            op = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[cmpd]
            return lambda t, w: put(w, op(old(t), v(t, w)))
        return lambda t, w: put(w, v(t, w))
