from core import *
# rax rcx rdx rbx rsp rbp rsi rdi r8-r15 = 0..15, flags = 16 (CF PF ZF SF OF = 1 2 4 8 16), xmm0-15 = 17..32
CF, PF, ZF, SF, OF = 1, 2, 4, 8, 16
FL, XMM = 16, 17
NAMES = ['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di']
REG = {}
for _k, _n in enumerate(NAMES):
    REG['r' + _n], REG['e' + _n], REG[_n] = (_k, 8, 0), (_k, 4, 0), (_k, 2, 0)
    if _k < 4:
        REG[_n[0] + 'l'], REG[_n[0] + 'h'] = (_k, 1, 0), (_k, 1, 8)
    else:
        REG[_n + 'l'] = (_k, 1, 0)
for _k in range(8, 16):
    REG[f'r{_k}'], REG[f'r{_k}d'], REG[f'r{_k}w'], REG[f'r{_k}b'] = (_k, 8, 0), (_k, 4, 0), (_k, 2, 0), (_k, 1, 0)
SIZES = dict(byte=1, word=2, dword=4, qword=8, xmmword=16)
CC = dict(o=lambda f: f & OF, no=lambda f: not f & OF, b=lambda f: f & CF, ae=lambda f: not f & CF, e=lambda f: f & ZF, ne=lambda f: not f & ZF,
          be=lambda f: f & (CF | ZF), a=lambda f: not f & (CF | ZF), s=lambda f: f & SF, ns=lambda f: not f & SF, p=lambda f: f & PF, np=lambda f: not f & PF,
          l=lambda f: bool(f & SF) != bool(f & OF), ge=lambda f: bool(f & SF) == bool(f & OF), le=lambda f: f & ZF or bool(f & SF) != bool(f & OF),
          g=lambda f: not f & ZF and bool(f & SF) == bool(f & OF))
CC.update(c=CC['b'], nc=CC['ae'], z=CC['e'], nz=CC['ne'])

def szp(v, n):
    """SF, ZF and PF of an n-byte result"""
    return (SF if v >> 8 * n - 1 & 1 else 0) | (0 if v else ZF) | (PF if bin(v & 255).count('1') % 2 == 0 else 0)
def fsub(d, s, n, c=0):
    m = (1 << 8 * n) - 1
    v = d - s - c
    r = v & m
    return r, szp(r, n) | (CF if v < 0 else 0) | (OF if ((d ^ s) & (d ^ r)) >> 8 * n - 1 & 1 else 0)
def fadd(d, s, n, c=0):
    m = (1 << 8 * n) - 1
    v = d + s + c
    r = v & m
    return r, szp(r, n) | (CF if v > m else 0) | (OF if (~(d ^ s) & (d ^ r)) >> 8 * n - 1 & 1 else 0)

class Arch(Base):
    tso = True
    weak_may_fail = False
    def __init__(self, abi=64, doubles=16):
        self.doubles = doubles
        self.abi = abi
        self.bits, self.word = (32 if abi == 32 else 64), (8 if abi == 64 else 4)
        self.high = abi == 64
        self.nreg, self.container, self.redzone = 33, 1, 128
        self.callee = [3, 5, 12, 13, 14, 15] if abi != 32 else [3, 5, 6, 7]
    def rname(self, k):
        return ('e' if self.abi == 32 else 'r') + NAMES[k] if k < 8 else f'r{k}'
    def start(self, t, arg, sp):
        t.r[FL] &= 31
        t.x['st'] = []
        w = 4 if self.abi == 32 else 8
        sp = sp - 64 & ~15
        if self.abi == 32:
            t.mem.wr(t, sp, 4, arg)
        else:
            t.r[7] = arg
        sp -= w
        t.mem.wr(t, sp, w, RET)
        t.r[4] = sp
        t.x['sp'] = sp
    def at_return(self, t):
        return ['values left on the x87 register stack'] if t.x['st'] else []
    def group(self, lines):
        out, pre = [], None
        for a, text, rel in lines:
            if pre is not None:
                a, text, rel, pre = pre[0], pre[1] + ' ' + text, pre[2] + rel, None
            if re.sub(r'\s+', ' ', text).strip() in ('lock', 'rep', 'repne', 'data16'):
                pre = (a, text, rel)
                continue
            out.append((a, text, rel))
        return out
    def decode(self, addr, text, rel, sec):
        text = re.sub(r'\s*<.*>$', '', text)
        text = re.sub(r'\s*#.*$', '', text)
        lock = text.startswith('lock ')
        if lock:
            text = text[5:].strip()
        if re.match(r'(data16 )*(nop|endbr\d+|pause|rep nop)\b', text) or re.match(r'cs nop', text):
            return [lambda t: None]
        if rel:
            raise Unmodelled(text + str(rel))
        p = text.split(None, 1)
        m, ops = p[0], split(p[1]) if len(p) > 1 else []
        long = self.abi != 32
        W = 8 if long else 4
        AM = (1 << 8 * W) - 1
        if m in ('ud2', 'int3', 'hlt'):
            def go(t):
                raise Fault(m)
            return [go]
        # ---- operands
        def isreg(s):
            return s in REG
        def isx(s):
            return re.fullmatch(r'xmm\d+', s)
        def mem_(s):
            """(bytes, address function) of a memory operand"""
            a = re.fullmatch(r'(?:(\w+) ptr )?(?:\w\w:)?\[(.*)\]', s)
            n = SIZES[a.group(1)] if a.group(1) else None
            e = a.group(2).replace(' - ', ' + -').split(' + ')
            d, parts, w = 0, [], W
            for x in e:
                x = x.strip()
                if '*' in x:
                    k, r = x.split('*')
                    if r in REG:
                        k, r = r, k
                    parts.append((REG[k][0], int(r, 0)))
                    w = REG[k][1]
                elif x in REG:
                    parts.append((REG[x][0], 1))
                    w = REG[x][1]
                elif x.lstrip('-')[0].isdigit():
                    d += int(x, 0)
                else:
                    raise Unmodelled(text)
            M = (1 << 8 * w) - 1
            return n, lambda t: d + sum((t.r[k] & M) * f for k, f in parts) & M
        def rd(t, a, n):
            """a plain read; one that is not aligned is several"""
            if a % n == 0 and n <= 8:
                return t.mem.rd(t, a, n)
            v, i = 0, 0
            while i < n:
                k = min(n - i, (a + i) & -(a + i) or 8, 8)
                k = 1 << k.bit_length() - 1
                v |= t.mem.rd(t, a + i, k) << 8 * i
                i += k
            return v
        def wr(t, a, n, v):
            if a % n == 0 and n <= 8:
                return t.mem.wr(t, a, n, v)
            i = 0
            while i < n:
                k = min(n - i, (a + i) & -(a + i) or 8, 8)
                k = 1 << k.bit_length() - 1
                t.mem.wr(t, a + i, k, v >> 8 * i & (1 << 8 * k) - 1)
                i += k
        def getr(s):
            k, n, sh = REG[s]
            M = (1 << 8 * n) - 1
            return lambda t: t.r[k] >> sh & M
        def putr(s):
            k, n, sh = REG[s]
            M = (1 << 8 * n) - 1
            if n == W or n == 4:
                def f(t, v):
                    t.r[k] = v & M
            else:
                def f(t, v):
                    t.r[k] = t.r[k] & ~(M << sh) & AM | (v & M) << sh
            return f
        def size(*xs):
            for s in xs:
                if s in REG:
                    return REG[s][1]
            for s in xs:
                if '[' in s and mem_(s)[0]:
                    return mem_(s)[0]
            raise Unmodelled(text)
        def src(s, n):
            if isreg(s):
                return getr(s)
            if '[' in s:
                f = mem_(s)[1]
                return lambda t: rd(t, f(t), n)
            v = int(s, 0) & (1 << 8 * n) - 1
            return lambda t: v
        def locked(t, a, n, f):
            """one indivisible read-modify-write and a full fence"""
            me = t.mem
            if getattr(me, 'shared', None) and not me.shared(a):
                o = me.rd(t, a, n)
                v = f(o)
                if v is not None:
                    me.wr(t, a, n, v)
                me.fence(t, [('RW', 'RW')])
                return o
            if not getattr(me, 'shared', None):
                me.find(t, a, n, 'W')       # a failing compare-exchange writes too
            return me.rmw(t, a, n, f)
        def flags(t, f, keep=0):
            t.r[FL] = t.r[FL] & keep | f & 31 & ~keep
        # ---- moves
        if m in ('mov', 'movabs'):
            if lock:
                raise Unmodelled(text)
            n = size(*ops)
            d, s = ops
            if '[' in d:
                f, g = mem_(d)[1], src(s, n)
                return [lambda t: wr(t, f(t), n, g(t))]
            g, h = src(s, n), putr(d)
            return [lambda t: h(t, g(t))]
        if m in ('movzx', 'movsx', 'movsxd'):
            n = REG[ops[1]][1] if isreg(ops[1]) else mem_(ops[1])[0]
            g, h = src(ops[1], n), putr(ops[0])
            return [lambda t: h(t, g(t) if m == 'movzx' else sx(g(t), 8 * n))]
        if m == 'lea':
            f, h = mem_(ops[1])[1], putr(ops[0])
            return [lambda t: h(t, f(t))]
        if m == 'push':
            if isreg(ops[0]) and REG[ops[0]][1] != W:
                raise Unmodelled(text)
            g = src(ops[0], W)
            if not isreg(ops[0]) and '[' not in ops[0]:
                v = sx(int(ops[0], 0), 8 * W) & AM
                g = lambda t: v
            def go(t):
                v = g(t)
                t.r[4] = t.r[4] - W & AM
                wr(t, t.r[4], W, v)
            return [go]
        if m == 'pop':
            if not isreg(ops[0]):
                raise Unmodelled(text)
            h = putr(ops[0])
            def go(t):
                v = rd(t, t.r[4], W)
                t.r[4] = t.r[4] + W & AM
                h(t, v)
            return [go]
        if m == 'leave':
            def go(t):
                t.r[4] = t.r[5]
                t.r[5] = rd(t, t.r[4], W)
                t.r[4] = t.r[4] + W & AM
            return [go]
        if m == 'ret' and not ops:
            def go(t):
                if t.r[4] != t.x['sp']:
                    raise Fault(f'return with the stack pointer at {t.r[4]:#x}, was {t.x["sp"]:#x}')
                t.npc = t.mem.rd(t, t.r[4], W)
                t.r[4] = t.r[4] + W & AM
            return [go]
        if m in ('cdq', 'cdqe', 'cqo', 'cwde', 'cbw', 'cwd'):
            a, d = {'cdq': ('eax', 'edx'), 'cqo': ('rax', 'rdx'), 'cwd': ('ax', 'dx'), 'cdqe': ('eax', 'rax'), 'cwde': ('ax', 'eax'), 'cbw': ('al', 'ax')}[m]
            g, h, n = getr(a), putr(d), REG[a][1]
            if m[-1] != 'e' and m != 'cbw':
                return [lambda t: h(t, -(g(t) >> 8 * n - 1))]
            return [lambda t: h(t, sx(g(t), 8 * n))]
        # ---- exchanges
        if m == 'xchg':
            n = size(*ops)
            if '[' not in ops[0] and '[' not in ops[1]:
                g0, g1, h0, h1 = getr(ops[0]), getr(ops[1]), putr(ops[0]), putr(ops[1])
                def go(t):
                    a, b = g0(t), g1(t)
                    h0(t, b)
                    h1(t, a)
                return [go]
            if '[' not in ops[0]:
                ops = ops[::-1]
            f, g, h = mem_(ops[0])[1], getr(ops[1]), putr(ops[1])
            def go(t):
                v = g(t)
                h(t, locked(t, f(t), n, lambda o: v))
            return [go]
        q = re.fullmatch(r'rep stos([bwdq]).*', re.sub(r'\s+', ' ', text))
        if q:
            n = {'b': 1, 'w': 2, 'd': 4, 'q': 8}[q.group(1)]
            at, cnt, v = REG['di'][0], REG['cx'][0], REG['ax'][0]
            def go(t):
                if t.r[cnt] > 4096:
                    raise Fault('rep stos over more than 4096 elements')
                for _ in range(t.r[cnt]):
                    wr(t, t.r[at], n, t.r[v] & (1 << 8 * n) - 1)
                    t.r[at] += n
                t.r[cnt] = 0
            return [go]
        if m == 'xadd' and '[' in ops[0]:
            n = size(ops[1])
            f, g, h = mem_(ops[0])[1], getr(ops[1]), putr(ops[1])
            if not lock:
                raise Unmodelled(text)
            def go(t):
                v = g(t)
                o = locked(t, f(t), n, lambda o: fadd(o, v, n)[0])
                flags(t, fadd(o, v, n)[1])
                h(t, o)
            return [go]
        if m == 'cmpxchg':
            n = size(ops[1])
            if '[' not in ops[0]:
                raise Unmodelled(text)
            acc = {1: 'al', 2: 'ax', 4: 'eax', 8: 'rax'}[n]
            f, g, ga, ha = mem_(ops[0])[1], getr(ops[1]), getr(acc), putr(acc)
            def fin(t, o, e):
                flags(t, fsub(e, o, n)[1])
                if o != e:
                    ha(t, o)
            if lock:
                def go(t):
                    e, v = ga(t), g(t)
                    fin(t, locked(t, f(t), n, lambda o: v if o == e else None), e)
                return [go]
            def one(t):
                t.x['ea'] = f(t)
                t.x['o'] = rd(t, t.x['ea'], n)
            def two(t):
                e, o = ga(t), t.x['o']
                wr(t, t.x['ea'], n, g(t) if o == e else o)
                fin(t, o, e)
            return [one, two]
        if m in ('cmpxchg8b', 'cmpxchg16b'):
            n = 8 if m == 'cmpxchg8b' else 16
            h = 4 * n
            q = (1 << h) - 1
            f = mem_(ops[0])[1]
            pair = lambda t, hi, lo: (t.r[hi] & q) << h | t.r[lo] & q
            def fin(t, o, e):
                flags(t, ZF if o == e else 0, 31 ^ ZF)
                if o != e:
                    t.r[0], t.r[2] = o & q, o >> h
            if lock:
                def go(t):
                    e, v = pair(t, 2, 0), pair(t, 1, 3)
                    fin(t, locked(t, f(t), n, lambda o: v if o == e else None), e)
                return [go]
            def one(t):
                a = t.x['ea'] = f(t)
                if a % 16 and n == 16:
                    raise Fault(f'cmpxchg16b at {a:#x}')
                t.x['o'] = rd(t, a, n)
            def two(t):
                e, o = pair(t, 2, 0), t.x['o']
                wr(t, t.x['ea'], n, pair(t, 1, 3) if o == e else o)
                fin(t, o, e)
            return [one, two]
        # ---- arithmetic
        two = {'add': (fadd, 0), 'sub': (fsub, 0), 'adc': (fadd, 1), 'sbb': (fsub, 1)}
        logic = {'and': lambda d, s: d & s, 'or': lambda d, s: d | s, 'xor': lambda d, s: d ^ s}
        if m in two or m in logic or m in ('cmp', 'test'):
            n = size(*ops)
            g = src(ops[1], n)
            if m in two or m == 'cmp':
                fn, carry = two.get(m, (fsub, 0))
                calc = lambda t, d, s: fn(d, s, n, t.r[FL] & CF if carry else 0)
            else:
                lf = logic.get(m, logic['and'])
                def calc(t, d, s):
                    v = lf(d, s)
                    return v, szp(v, n)
            if m in ('cmp', 'test'):
                g0 = src(ops[0], n)
                return [lambda t: flags(t, calc(t, g0(t), g(t))[1])]
            if isreg(ops[0]):
                g0, h = getr(ops[0]), putr(ops[0])
                def go(t):
                    v, fl = calc(t, g0(t), g(t))
                    h(t, v)
                    flags(t, fl)
                return [go]
            f = mem_(ops[0])[1]
            if lock:
                def go(t):
                    s = g(t)
                    o = locked(t, f(t), n, lambda o: calc(t, o, s)[0])
                    flags(t, calc(t, o, s)[1])
                return [go]
            def one(t):
                t.x['ea'] = f(t)
                t.x['o'] = rd(t, t.x['ea'], n)
            def last(t):
                v, fl = calc(t, t.x['o'], g(t))
                wr(t, t.x['ea'], n, v)
                flags(t, fl)
            return [one, last]
        if m in ('inc', 'dec', 'neg', 'not'):
            n = size(ops[0])
            M = (1 << 8 * n) - 1
            def calc(v):
                """value, flags, flags kept"""
                if m == 'not':
                    return ~v & M, 0, 31
                if m == 'neg':
                    return *fsub(0, v, n), 0
                return *(fadd if m == 'inc' else fsub)(v, 1, n), CF
            if isreg(ops[0]):
                g, h = getr(ops[0]), putr(ops[0])
                def go(t):
                    v, fl, k = calc(g(t))
                    h(t, v)
                    flags(t, fl, k)
                return [go]
            f = mem_(ops[0])[1]
            if lock:
                def go(t):
                    o = locked(t, f(t), n, lambda o: calc(o)[0])
                    flags(t, *calc(o)[1:])
                return [go]
            def one(t):
                t.x['ea'] = f(t)
                t.x['o'] = rd(t, t.x['ea'], n)
            def last(t):
                v, fl, k = calc(t.x['o'])
                wr(t, t.x['ea'], n, v)
                flags(t, fl, k)
            return [one, last]
        if m in ('shl', 'sal', 'shr', 'sar', 'rol', 'ror', 'shld', 'shrd'):
            n = size(ops[0])
            B = 8 * n
            M = (1 << B) - 1
            cnt = src(ops[-1], 1) if len(ops) > (2 if m in ('shld', 'shrd') else 1) else (lambda t: 1)
            if not isreg(ops[0]):
                raise Unmodelled(text)
            g, h = getr(ops[0]), putr(ops[0])
            g2 = getr(ops[1]) if m in ('shld', 'shrd') else None
            def go(t):
                c = cnt(t) & (63 if n == 8 else 31)
                v = g(t)
                if c == 0:
                    return h(t, v)
                if m in ('rol', 'ror'):
                    k = c % B if m == 'rol' else -c % B
                    r = (v << k | v >> B - k) & M
                    h(t, r)
                    return flags(t, (r & 1 if m == 'rol' else r >> B - 1), 31 ^ CF ^ OF)
                if m in ('shl', 'sal'):
                    r, co = v << c & M, v << c >> B & 1
                elif m == 'shr':
                    r, co = v >> c, v >> c - 1 & 1
                elif m == 'sar':
                    r, co = sx(v, B) >> c & M, sx(v, B) >> c - 1 & 1
                elif c > B:
                    raise Unmodelled(text)
                elif m == 'shld':
                    r, co = (v << c | g2(t) >> B - c) & M, v >> B - c & 1
                else:
                    r, co = (v >> c | g2(t) << B - c) & M, v >> c - 1 & 1
                h(t, r)
                flags(t, szp(r, n) | co)
            return [go]
        if m in ('rorx', 'shlx', 'shrx', 'sarx') and isreg(ops[1]):
            n = size(ops[0])
            B, M = 8 * n, (1 << 8 * n) - 1
            g, h, c = getr(ops[1]), putr(ops[0]), src(ops[2], n)
            def go(t):
                k, v = c(t) & B - 1, g(t)
                h(t, {'rorx': (v >> k | v << B - k) & M, 'shlx': v << k & M, 'shrx': v >> k, 'sarx': sx(v, B) >> k}[m])
            return [go]
        if m == 'bswap':
            n = size(ops[0])
            g, h = getr(ops[0]), putr(ops[0])
            return [lambda t: h(t, int.from_bytes(g(t).to_bytes(n, 'little'), 'big'))]
        if m == 'imul' and len(ops) >= 2 and isreg(ops[0]):
            n = size(ops[0])
            B, h = 8 * n, putr(ops[0])
            a, b = src(ops[-2], n), src(ops[-1], n)
            def go(t):
                v = sx(a(t), B) * sx(b(t), B)
                h(t, v)
                flags(t, CF | OF if v != sx(v, B) else 0)
            return [go]
        if m in ('stc', 'clc', 'cmc'):
            return [lambda t: flags(t, {'stc': CF, 'clc': 0, 'cmc': ~t.r[FL] & CF}[m], 31 ^ CF)]
        # ---- conditions
        if m.startswith('set') and m[3:] in CC:
            c = CC[m[3:]]
            if isreg(ops[0]):
                h = putr(ops[0])
                return [lambda t: h(t, 1 if c(t.r[FL]) else 0)]
            f = mem_(ops[0])[1]
            return [lambda t: wr(t, f(t), 1, 1 if c(t.r[FL]) else 0)]
        if m.startswith('cmov') and m[4:] in CC:
            c, n = CC[m[4:]], size(ops[0])
            g, g0, h = src(ops[1], n), getr(ops[0]), putr(ops[0])
            def go(t):
                v = g(t)
                h(t, v if c(t.r[FL]) else g0(t))
            return [go]
        if m == 'jmp' or m[0] == 'j' and m[1:] in CC:
            tg = int(ops[0], 16)
            c = CC[m[1:]] if m != 'jmp' else None
            def go(t):
                if c is None:
                    t.npc = tg
                    return
                t.mem.fence(t, 'branch')
                if c(t.r[FL]):
                    t.npc = tg
            return [go]
        # ---- fences
        if m == 'mfence':
            return [lambda t: t.mem.fence(t, [('RW', 'RW')])]
        if m in ('lfence', 'sfence'):
            return [lambda t: None]
        # ---- vector registers: moves only
        if m in ('movaps', 'movups', 'movdqa', 'movdqu', 'movapd', 'movupd', 'movq', 'movd', 'movsd', 'movss', 'movlps', 'movhps', 'movlpd', 'movhpd') or m[:4] == 'vmov' and m[1:] in ('movaps', 'movups', 'movdqa', 'movdqu', 'movq', 'movd', 'movsd', 'movss') and len(ops) == 2:
            q = m.removeprefix('v')
            Q = (1 << 64) - 1
            full = q in ('movaps', 'movups', 'movdqa', 'movdqu', 'movapd', 'movupd')
            n = 16 if full else 4 if q in ('movd', 'movss') else 8
            if q == 'movd' and any(isreg(s) and REG[s][1] == 8 for s in ops):
                n = 8
            hi = q in ('movhps', 'movhpd')
            keep = q in ('movlps', 'movhps', 'movlpd', 'movhpd')
            N = (1 << 8 * n) - 1
            d, s = ops
            if isx(d):
                k = XMM + int(d[3:])
                if isx(s):
                    j = XMM + int(s[3:])
                    if full:
                        def go(t):
                            t.r[k] = t.r[j]
                    elif q == 'movq':
                        def go(t):
                            t.r[k] = t.r[j] & Q
                    elif q in ('movsd', 'movss'):
                        def go(t):
                            t.r[k] = t.r[k] & ~N | t.r[j] & N
                    else:
                        raise Unmodelled(text)
                    return [go]
                if isreg(s):
                    g = getr(s)
                    def go(t):
                        t.r[k] = g(t)
                    return [go]
                f = mem_(s)[1]
                if full:
                    def one(t):
                        a = t.x['ea'] = f(t)
                        if a % 16 and q in ('movaps', 'movdqa', 'movapd'):
                            raise Fault(f'misaligned 16-byte access at {a:#x}')
                        t.x['lo'] = rd(t, a, 8)
                    def last(t):
                        t.r[k] = t.x['lo'] | rd(t, t.x['ea'] + 8, 8) << 64
                    return [one, last]
                def go(t):
                    v = rd(t, f(t), n)
                    t.r[k] = (t.r[k] & Q | v << 64) if hi else (t.r[k] & ~Q | v) if keep else v
                return [go]
            if isx(s):
                k = XMM + int(s[3:])
                if isreg(d):
                    h = putr(d)
                    return [lambda t: h(t, t.r[k] & N)]
                f = mem_(d)[1]
                if full:
                    def one(t):
                        a = t.x['ea'] = f(t)
                        if a % 16 and q in ('movaps', 'movdqa', 'movapd'):
                            raise Fault(f'misaligned 16-byte access at {a:#x}')
                        wr(t, a, 8, t.r[k] & Q)
                    def last(t):
                        wr(t, t.x['ea'] + 8, 8, t.r[k] >> 64 & Q)
                    return [one, last]
                return [lambda t: wr(t, f(t), n, t.r[k] >> (64 if hi else 0) & N)]
            raise Unmodelled(text)
        vl = {'xorps': lambda a, b: a ^ b, 'pxor': lambda a, b: a ^ b, 'xorpd': lambda a, b: a ^ b, 'andps': lambda a, b: a & b, 'pand': lambda a, b: a & b, 'orps': lambda a, b: a | b, 'por': lambda a, b: a | b}
        def lanes(v, b=32):
            return [v >> b * i & (1 << b) - 1 for i in range(128 // b)]
        def join(l, b=32):
            return sum(x << b * i for i, x in enumerate(l))
        vl['pcmpeqd'] = lambda a, b: join([0xffffffff if x == y else 0 for x, y in zip(lanes(a), lanes(b))])
        vl['pcmpeqb'] = lambda a, b: join([0xff if x == y else 0 for x, y in zip(lanes(a, 8), lanes(b, 8))], 8)
        vl['punpckldq'] = vl['unpcklps'] = lambda a, b: join([lanes(a)[0], lanes(b)[0], lanes(a)[1], lanes(b)[1]])
        vl['punpcklqdq'] = vl['movlhps'] = vl['unpcklpd'] = lambda a, b: a & (1 << 64) - 1 | (b & (1 << 64) - 1) << 64
        vl['movhlps'] = lambda a, b: a >> 64 << 64 | b >> 64
        if m in vl and isx(ops[1]):
            k, j, f = XMM + int(ops[0][3:]), XMM + int(ops[1][3:]), vl[m]
            def go(t):
                t.r[k] = f(t.r[k], t.r[j])
            return [go]
        if m in vl and '[' in ops[1] and isx(ops[0]):
            k, g, f = XMM + int(ops[0][3:]), mem_(ops[1])[1], vl[m]
            def one(t):
                a = t.x['ea'] = g(t)
                if a % 16:
                    raise Fault(f'misaligned 16-byte access at {a:#x}')
                t.x['lo'] = rd(t, a, 8)
            def last(t):
                t.r[k] = f(t.r[k], t.x['lo'] | rd(t, t.x['ea'] + 8, 8) << 64)
            return [one, last]
        if m == 'pmovmskb' and isx(ops[1]):
            h, j = putr(ops[0]), XMM + int(ops[1][3:])
            return [lambda t: h(t, sum((x >> 7) << i for i, x in enumerate(lanes(t.r[j], 8))))]
        if m in ('pshufd', 'shufps') and isx(ops[1]):
            k, j, c = XMM + int(ops[0][3:]), XMM + int(ops[1][3:]), int(ops[2], 0)
            def go(t):
                a, b = lanes(t.r[k]), lanes(t.r[j])
                i = [c >> 2 * x & 3 for x in range(4)]
                t.r[k] = join([b[x] for x in i] if m == 'pshufd' else [a[i[0]], a[i[1]], b[i[2]], b[i[3]]])
            return [go]
        if m in ('psrlq', 'psllq', 'psrldq', 'pslldq') and '0x' + ops[1].removeprefix('0x') and not isx(ops[1]):
            k, c = XMM + int(ops[0][3:]), int(ops[1], 0)
            def go(t):
                v = t.r[k]
                if m == 'psrldq':
                    t.r[k] = v >> 8 * c
                elif m == 'pslldq':
                    t.r[k] = v << 8 * c & (1 << 128) - 1
                else:
                    t.r[k] = join([(x >> c if m == 'psrlq' else x << c & (1 << 64) - 1) for x in lanes(v, 64)], 64)
            return [go]
        # ---- x87: 64-bit integers through the register stack
        def push(t, v):
            if len(t.x['st']) >= 8:
                raise Fault('x87 stack overflow')
            t.x['st'].append(v)
        def st(s):
            return -1 - (int(s[3:-1]) if s != 'st' else 0)
        if m in ('fld', 'fst', 'fstp') and '[' in ops[0]:
            # a double, kept as its bits
            n, f = mem_(ops[0])
            if n != 8:
                raise Unmodelled(text)
            def go(t):
                if m == 'fld':
                    v = rd(t, f(t), 8)
                    if v >> 52 & 0x7ff == 0x7ff and v << 12 & (1 << 64) - 1:
                        v |= 1 << 51      # a signalling NaN becomes quiet
                    return push(t, ('d', v))
                if not t.x['st']:
                    raise Fault('x87 stack underflow')
                v = t.x['st'][-1]
                if m == 'fstp':
                    t.x['st'].pop()
                if v.__class__ is not tuple:
                    raise Unmodelled('an integer stored as a double')
                wr(t, f(t), 8, v[1])
            return [go]
        if m in ('fld', 'fstp', 'fxch', 'fst'):
            k = st(ops[0] if ops else 'st(1)')
            def go(t):
                s = t.x['st']
                if len(s) < -k:
                    raise Fault('x87 stack underflow')
                if m == 'fld':
                    push(t, s[k])
                elif m == 'fxch':
                    s[-1], s[k] = s[k], s[-1]
                else:
                    s[k] = s[-1]
                    if m == 'fstp':
                        s.pop()
            return [go]
        if m == 'fild':
            n, f = mem_(ops[0])
            def go(t):
                push(t, sx(rd(t, f(t), n), 8 * n))
            return [go]
        if m in ('fistp', 'fisttp'):
            n, f = mem_(ops[0])
            def go(t):
                if not t.x['st']:
                    raise Fault('x87 stack underflow')
                v = t.x['st'].pop()
                B = 8 * n
                if v.__class__ is tuple:
                    raise Unmodelled('a double stored as an integer')
                if not -(1 << B - 1) <= v < 1 << B - 1:
                    v = 1 << B - 1
                wr(t, f(t), n, v)
            return [go]
        raise Unmodelled(text)
