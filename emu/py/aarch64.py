from core import *

COND = {'eq': lambda f: f[1], 'ne': lambda f: not f[1], 'lo': lambda f: not f[2], 'cc': lambda f: not f[2], 'hs': lambda f: f[2], 'cs': lambda f: f[2], 'mi': lambda f: f[0], 'pl': lambda f: not f[0],
        'vs': lambda f: f[3], 'vc': lambda f: not f[3], 'hi': lambda f: f[2] and not f[1], 'ls': lambda f: not f[2] or f[1], 'ge': lambda f: f[0] == f[3], 'lt': lambda f: f[0] != f[3],
        'gt': lambda f: not f[1] and f[0] == f[3], 'le': lambda f: f[1] or f[0] != f[3], 'al': lambda f: True}
EXT = {'uxtb': lambda v: v & 0xff, 'uxth': lambda v: v & 0xffff, 'uxtw': lambda v: v & 0xffffffff, 'uxtx': lambda v: v, 'sxtb': lambda v: sx(v, 8), 'sxth': lambda v: sx(v, 16), 'sxtw': lambda v: sx(v, 32), 'sxtx': lambda v: v}
M64 = (1 << 64) - 1

class Arch(Base):
    high = True
    nreg = 33                       # x0..x30, sp = 31, the zero register = 32
    def __init__(self, end='little', *feat):
        self.end = end
        self.lse2 = 'lse2' in feat
        self.word = 4 if 'ilp32' in feat else 8     # pointers: the other half of a register holding one is anything
        self.callee = list(range(19, 30)) + [31]
        self.objdump = ['--mattr=+lse,+lse128,+rcpc3,+v8.4a']
    def rname(self, k):
        return 'sp' if k == 31 else f'x{k}'
    def start(self, t, arg, sp):
        t.r[0], t.r[30], t.r[31], t.r[32] = arg, RET, sp, 0
        t.x['f'] = (0, 0, 0, 0)
    def decode(self, addr, text, rel, sec):
        p = text.split('//')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        def reg(s):
            if s in ('xzr', 'wzr'):
                return 32, 8 if s[0] == 'x' else 4
            if s in ('sp', 'wsp'):
                return 31, 8 if s == 'sp' else 4
            a = re.fullmatch(r'([xw])(\d+)', s)
            return int(a.group(2)), 8 if a.group(1) == 'x' else 4
        def put(t, d, v, n):
            if d != 32:
                t.r[d] = v & (M64 if n == 8 else 0xffffffff)
        def operand(xs, n):
            """register (with shift or extension) or immediate"""
            s = xs[0]
            if s[0] == '#' or s[0].isdigit():
                v = num(s)
                if len(xs) > 1:
                    v <<= num(xs[1].split()[1])
                return lambda t: v
            k, w = reg(s)
            msk = (1 << 8 * n) - 1
            if len(xs) == 1:
                return lambda t: t.r[k] & msk
            e = xs[1].split()
            a = num(e[1]) if len(e) > 1 else 0
            if e[0] in EXT:
                return lambda t: (EXT[e[0]](t.r[k]) << a) & msk
            if e[0] == 'lsl':
                return lambda t: (t.r[k] & msk) << a & msk
            if e[0] == 'lsr':
                return lambda t: (t.r[k] & msk) >> a
            if e[0] == 'asr':
                return lambda t: sx(t.r[k], 8 * n) >> a & msk
            raise Unmodelled(text)
        def mem(xs):
            """address operands -> function giving the address, applying write-back"""
            a = re.fullmatch(r'\[(\w+)(?:, (#?[-\w]+))?(?:, (lsl|uxtw|sxtw)(?: #(\w+))?)?\](!?)', xs[0])
            if not a:
                raise Unmodelled(text)
            b, o = reg(a.group(1))[0], a.group(2)
            if o and re.fullmatch(r'[xw]\w+', o):
                k, sh, ex = reg(o)[0], int(a.group(4) or '0', 0), a.group(3)
                return lambda t: t.r[b] + ((EXT[ex](t.r[k]) if ex in EXT else t.r[k]) << sh) & M64
            o = num(o) if o else 0
            post = num(xs[1]) if len(xs) > 1 else None
            wb = a.group(5)
            def f(t):
                if post is not None:
                    x = t.r[b]
                    t.r[b] = x + post & M64
                    return x
                x = t.r[b] + o & M64
                if wb:
                    t.r[b] = x
                return x
            return f
        # ---- data processing
        two = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'and': lambda x, y: x & y, 'orr': lambda x, y: x | y, 'eor': lambda x, y: x ^ y, 'bic': lambda x, y: x & ~y, 'orn': lambda x, y: x | ~y, 'eon': lambda x, y: x ^ ~y, 'mul': lambda x, y: x * y}
        if m in two and len(ops) >= 3:
            d, n = reg(ops[0])
            a, f, o = reg(ops[1])[0], two[m], operand(ops[2:], n)
            return [lambda t: put(t, d, f(t.r[a] & (1 << 8 * n) - 1, o(t)), n)]
        if m in ('lsl', 'lsr', 'asr', 'ror'):
            d, n = reg(ops[0])
            a, o = reg(ops[1])[0], operand(ops[2:], n)
            def go(t):
                x, s = t.r[a] & (1 << 8 * n) - 1, o(t) % (8 * n)
                put(t, d, {'lsl': x << s, 'lsr': x >> s, 'asr': sx(x, 8 * n) >> s, 'ror': x >> s | x << 8 * n - s}[m], n)
            return [go]
        un = {'mov': lambda x, b: x, 'mvn': lambda x, b: ~x, 'neg': lambda x, b: -x, 'uxtb': lambda x, b: x & 0xff, 'uxth': lambda x, b: x & 0xffff, 'uxtw': lambda x, b: x & 0xffffffff, 'sxtb': lambda x, b: sx(x, 8), 'sxth': lambda x, b: sx(x, 16), 'sxtw': lambda x, b: sx(x, 32)}
        if m in un:
            d, n = reg(ops[0])
            f, o = un[m], operand(ops[1:], n)
            return [lambda t: put(t, d, f(o(t), n), n)]
        if m in ('movz', 'movn', 'movk'):
            d, n = reg(ops[0])
            sh = num(ops[2].split()[1]) if len(ops) > 2 else 0
            v = num(ops[1]) << sh
            if m == 'movk':
                return [lambda t: put(t, d, t.r[d] & ~(0xffff << sh) | v, n)]
            return [lambda t: put(t, d, v if m == 'movz' else ~v, n)]
        if m in ('ubfx', 'sbfx'):
            d, n = reg(ops[0])
            a, l, w = reg(ops[1])[0], num(ops[2]), num(ops[3])
            return [lambda t: put(t, d, (t.r[a] >> l & (1 << w) - 1) if m == 'ubfx' else sx(t.r[a] >> l, w), n)]
        def flags(x, y, n, sub):
            b = 8 * n
            msk = (1 << b) - 1
            y2 = y & msk
            if sub:
                r = x - y2
                return (r >> (b - 1) & 1, int(r & msk == 0), int(x >= y2), int(sx(x, b) - sx(y2, b) != sx(r, b)))
            r = x + y2
            return (r >> (b - 1) & 1, int(r & msk == 0), int(r > msk), int(sx(x, b) + sx(y2, b) != sx(r, b)))
        if m in ('cmp', 'cmn'):
            a, n = reg(ops[0])
            o = operand(ops[1:], n)
            def go(t):
                t.x['f'] = flags(t.r[a] & (1 << 8 * n) - 1, o(t), n, m == 'cmp')
            return [go]
        if m in ('subs', 'adds', 'ands', 'tst'):
            if m == 'tst':
                ops = ['xzr' if ops[0][0] == 'x' else 'wzr'] + ops
            d, n = reg(ops[0])
            a, o = reg(ops[1])[0], operand(ops[2:], n)
            def go(t):
                x, y = t.r[a] & (1 << 8 * n) - 1, o(t)
                if m in ('ands', 'tst'):
                    r = x & y
                    t.x['f'] = (r >> (8 * n - 1) & 1, int(r == 0), 0, 0)
                else:
                    t.x['f'] = flags(x, y, n, m == 'subs')
                    r = x - y if m == 'subs' else x + y
                put(t, d, r, n)
            return [go]
        if m in ('ccmp', 'ccmn'):
            a, n = reg(ops[0])
            o, nz, c = operand(ops[1:2], n), num(ops[2]), COND[ops[3]]
            def go(t):
                t.x['f'] = flags(t.r[a] & (1 << 8 * n) - 1, o(t), n, m == 'ccmp') if c(t.x['f']) else (nz >> 3 & 1, nz >> 2 & 1, nz >> 1 & 1, nz & 1)
            return [go]
        if m in ('cset', 'csetm'):
            d, n = reg(ops[0])
            c = COND[ops[1]]
            return [lambda t: put(t, d, (1 if m == 'cset' else -1) if c(t.x['f']) else 0, n)]
        if m in ('cinc', 'cinv', 'cneg'):
            d, n = reg(ops[0])
            a, c = reg(ops[1])[0], COND[ops[2]]
            return [lambda t: put(t, d, {'cinc': t.r[a] + 1, 'cinv': ~t.r[a], 'cneg': -t.r[a]}[m] if c(t.x['f']) else t.r[a], n)]
        if m in ('csel', 'csinc', 'csinv', 'csneg'):
            d, n = reg(ops[0])
            a, b, c = reg(ops[1])[0], reg(ops[2])[0], COND[ops[3]]
            return [lambda t: put(t, d, t.r[a] if c(t.x['f']) else {'csel': t.r[b], 'csinc': t.r[b] + 1, 'csinv': ~t.r[b], 'csneg': -t.r[b]}[m], n)]
        # ---- branches
        if m == 'b' or m.startswith('b.'):
            c, tg = COND[m[2:] or 'al'], num(ops[0])
            def go(t):
                if m != 'b':
                    t.mem.fence(t, 'branch')
                if c(t.x['f']):
                    t.npc = tg
            return [go]
        if m in ('cbz', 'cbnz'):
            (a, n), tg = reg(ops[0]), num(ops[1])
            def go(t):
                t.mem.fence(t, 'branch')
                if (t.r[a] & (1 << 8 * n) - 1 == 0) == (m == 'cbz'):
                    t.npc = tg
            return [go]
        if m in ('tbz', 'tbnz'):
            a, i, tg = reg(ops[0])[0], num(ops[1]), num(ops[2])
            def go(t):
                t.mem.fence(t, 'branch')
                if (t.r[a] >> i & 1 == 0) == (m == 'tbz'):
                    t.npc = tg
            return [go]
        if m == 'ret':
            def go(t):
                t.npc = t.r[30]
            return [go]
        if m in ('nop', 'yield', 'hint', 'bti'):
            return [lambda t: None]
        # ---- barriers
        if m in ('dmb', 'dsb'):
            o = ops[0]
            k = [('R', 'RW')] if o.endswith('ld') else [('W', 'W')] if o.endswith('st') else [('RW', 'RW')]
            if o[:3] not in ('ish', 'sy', 'sy\0') and o not in ('ld', 'st', 'sy'):
                k = []      # nsh, osh*: narrower than the inner shareable domain (osh is wider)
                if o.startswith('osh'):
                    k = [('R', 'RW')] if o.endswith('ld') else [('W', 'W')] if o.endswith('st') else [('RW', 'RW')]
            return [lambda t: t.mem.fence(t, k)]
        if m == 'isb':
            return [lambda t: t.mem.fence(t, 'isync')]
        if m == 'clrex':
            def go(t):
                t.res = None
            return [go]
        # ---- memory
        if m in ('ldr', 'str', 'ldur', 'stur') and re.fullmatch(r'q\d+', ops[0]):
            return vcopy(m[0] == 's', ops[0], mem(ops[1:]), 'q')
        if m in ('ld1', 'st1') and len(ops) == 2 and re.fullmatch(r'\{ ?v\d+\.2d ?\}', ops[0]):
            return vcopy(m[0] == 's', 'q' + re.search(r'\d+', ops[0]).group(), mem(ops[1:]), '2d')
        end = self.end
        def pair(lo, hi, n):
            return lo | hi << 8 * n if end == 'little' else hi | lo << 8 * n
        def unpair(v, n):
            msk = (1 << 8 * n) - 1
            return (v & msk, v >> 8 * n) if end == 'little' else (v >> 8 * n, v & msk)
        a = re.fullmatch(r'(ld|st)(a|l|ap|lu|u|t)?(x|r|xr|ur)?(b|h|sb|sh|sw)?', m)
        sz = {'b': 1, 'h': 2, 'sb': 1, 'sh': 2, 'sw': 4}
        a = re.fullmatch(r'ld(r|ur|ar|apr|apur|lar)(b|h|sb|sh|sw)?', m)
        if a:
            (d, rn), ad = reg(ops[0]), mem(ops[1:])
            s = a.group(2) or ''
            n = sz.get(s, rn)
            tg = {'r': '', 'ur': '', 'ar': 'A', 'apr': 'Q', 'apur': 'Q', 'lar': 'A'}[a.group(1)]
            return [lambda t: put(t, d, sx(t.mem.rd(t, ad(t), n, tag=tg), 8 * n) if s[:1] == 's' else t.mem.rd(t, ad(t), n, tag=tg), rn)]
        a = re.fullmatch(r'st(r|ur|lr|lur|llr)(b|h)?', m)
        if a:
            (s, rn), ad = reg(ops[0]), mem(ops[1:])
            n = sz.get(a.group(2), rn)
            tg = 'L' if 'l' in a.group(1) else ''
            return [lambda t: t.mem.wr(t, ad(t), n, t.r[s], tag=tg)]
        if m in ('ldp', 'stp', 'ldiapp', 'stilp'):
            (a, n), (b, _), ad = reg(ops[0]), reg(ops[1]), mem(ops[2:])
            tg = {'ldp': '', 'stp': '', 'ldiapp': 'Q', 'stilp': 'L'}[m]
            if m in ('ldp', 'ldiapp'):
                def lo(t):
                    x = ad(t)
                    if self.lse2 and n == 8 and x % 16 == 0:
                        v = unpair(t.mem.rd(t, x, 16, tag=tg), 8)
                        put(t, a, v[0], 8)
                        put(t, b, v[1], 8)
                        t.x['half'] = None
                    else:
                        t.x['half'] = x
                        t.x['lo'] = t.mem.rd(t, x, n, tag=tg)
                def hi(t):
                    if t.x['half'] is not None:
                        v = t.mem.rd(t, t.x['half'] + n, n, tag=tg)
                        put(t, a, t.x['lo'], n)
                        put(t, b, v, n)
                return [lo, hi]
            def lo(t):
                x = ad(t)
                if self.lse2 and n == 8 and x % 16 == 0:
                    t.mem.wr(t, x, 16, pair(t.r[a], t.r[b], 8), tag=tg)
                    t.x['half'] = None
                else:
                    t.x['half'] = x
                    t.mem.wr(t, x, n, t.r[a], tag=tg)
            def hi(t):
                if t.x['half'] is not None:
                    t.mem.wr(t, t.x['half'] + n, n, t.r[b], tag=tg)
            return [lo, hi]
        a = re.fullmatch(r'ld(a?)xr(b|h)?', m)
        if a:
            (d, rn), ad = reg(ops[0]), mem(ops[1:])
            n, tg = sz.get(a.group(2), rn), 'A' if a.group(1) else ''
            return [lambda t: put(t, d, t.mem.ll(t, ad(t), n, tg), rn)]
        a = re.fullmatch(r'st(l?)xr(b|h)?', m)
        if a:
            k, (s, rn), ad = reg(ops[0])[0], reg(ops[1]), mem(ops[2:])
            n, tg = sz.get(a.group(2), rn), 'L' if a.group(1) else ''
            if k == reg(ops[1])[0] or k == reg(ops[2].strip('[]').split(',')[0])[0]:
                raise Unmodelled(text + ' is unpredictable')
            return [lambda t: put(t, k, 0 if t.mem.sc(t, ad(t), n, t.r[s], tg) else 1, 4)]
        a = re.fullmatch(r'ld(a?)xp', m)
        if a:
            # the two halves are one access only when a store-exclusive to them succeeds
            (d, n), (e, _), ad = reg(ops[0]), reg(ops[1]), mem(ops[2:])
            tg = 'A' if a.group(1) else ''
            def lo(t):
                t.x['half'] = x = ad(t)
                if x % (2 * n):
                    raise Fault(f'misaligned load-exclusive pair at {x:#x}')
                t.x['lo'] = t.mem.ll(t, x, 2 * n, tg, half=(0, n))
            def hi(t):
                v = t.mem.ll(t, t.x['half'], 2 * n, tg, half=(n, n))
                put(t, d, t.x['lo'], n)
                put(t, e, v, n)
            return [lo, hi]
        a = re.fullmatch(r'st(l?)xp', m)
        if a:
            k, (s, n), (u, _), ad = reg(ops[0])[0], reg(ops[1]), reg(ops[2]), mem(ops[3:])
            tg = 'L' if a.group(1) else ''
            return [lambda t: put(t, k, 0 if t.mem.sc(t, ad(t), 2 * n, pair(t.r[s], t.r[u], n), tg) else 1, 4)]
        a = re.fullmatch(r'(swp|cas|ldadd|ldset|ldclr|ldeor)(al|a|l)?(b|h)?', m)
        if a:
            (s, rn), (d, _), ad = reg(ops[0]), reg(ops[1]), mem(ops[2:])
            n, k = sz.get(a.group(3), rn), a.group(1)
            tg = (a.group(2) or '').upper()
            msk = (1 << 8 * n) - 1
            def go(t):
                x = ad(t)
                if k == 'cas':
                    e, v = t.r[s] & msk, t.r[d] & msk
                    put(t, s, t.mem.rmw(t, x, n, lambda o: v if o == e else None, tg), rn)
                else:
                    v = t.r[s]
                    f = {'swp': lambda o: v, 'ldadd': lambda o: o + v, 'ldset': lambda o: o | v, 'ldclr': lambda o: o & ~v, 'ldeor': lambda o: o ^ v}[k]
                    put(t, d, t.mem.rmw(t, x, n, f, tg), rn)
            return [go]
        a = re.fullmatch(r'(casp|swpp)(al|a|l)?', m)
        if a:
            rs = [reg(o) for o in ops[:-1]]
            n, ad, tg = rs[0][1], mem(ops[-1:]), (a.group(2) or '').upper()
            rs = [r[0] for r in rs]
            if a.group(1) == 'casp':
                def go(t):
                    e, v = pair(t.r[rs[0]], t.r[rs[1]], n), pair(t.r[rs[2]], t.r[rs[3]], n)
                    o = unpair(t.mem.rmw(t, ad(t), 2 * n, lambda o: v if o == e else None, tg), n)
                    put(t, rs[0], o[0], n)
                    put(t, rs[1], o[1], n)
            else:
                def go(t):
                    v = pair(t.r[rs[0]], t.r[rs[1]], n)
                    o = unpair(t.mem.rmw(t, ad(t), 16, lambda o: v, tg), 8)
                    put(t, rs[0], o[0], 8)
                    put(t, rs[1], o[1], 8)
            return [go]
        raise Unmodelled(text)
