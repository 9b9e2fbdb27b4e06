from core import *
M = (1 << 64) - 1
COND = {'o': 1, 'h': 2, 'nle': 3, 'l': 4, 'nhe': 5, 'lh': 6, 'ne': 7, 'nz': 7, 'e': 8, 'z': 8, 'nlh': 9, 'he': 10, 'nl': 11, 'le': 12, 'nh': 13, 'no': 14, 'p': 2, 'm': 4, 'np': 13, 'nm': 11}

class Arch(Base):
    end, high, nreg, tso = 'big', True, 16, True
    callee = list(range(6, 14)) + [15]
    redzone = 224      # register save area and backchain
    def rname(self, k):
        return f'%r{k}'
    def start(self, t, arg, sp):
        t.r[2], t.r[14], t.r[15] = arg, RET, sp & ~7
        t.x['cc'] = 0
    def decode(self, addr, text, rel, sec):
        p = text.split('#')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        R = lambda s: int(s.replace('%r', ''))
        def mem(s):
            a = re.fullmatch(r'(-?\d+)\((?:(%r\d+),)?(%r\d+)\)', s)
            if a:
                o, x, b = int(a.group(1)), R(a.group(2) or '%r0'), R(a.group(3))
            else:
                o, x, b = int(s), 0, 0
            return lambda t: o + (t.r[x] if x else 0) + (t.r[b] if b else 0) & M
        def s64(d, v): return lambda t: t.r.__setitem__(d, v(t) & M)
        def s32(d, v): return lambda t: t.r.__setitem__(d, t.r[d] & ~0xffffffff | v(t) & 0xffffffff)
        w = lambda v: v & 0xffffffff
        def mark(t, tag='F'):
            t.mem.fence(t, [('RW', 'RW')])
        # loads
        ld = {'l': (4, 0, 32), 'lg': (8, 0, 64), 'lgf': (4, 1, 64), 'llgf': (4, 0, 64), 'lb': (1, 1, 32), 'lgb': (1, 1, 64), 'llc': (1, 0, 32), 'llgc': (1, 0, 64), 'lh': (2, 1, 32), 'lhy': (2, 1, 32), 'lgh': (2, 1, 64), 'llh': (2, 0, 32), 'llgh': (2, 0, 64), 'ly': (4, 0, 32)}
        if m in ld:
            n, s, b = ld[m]
            d, ad = R(ops[0]), mem(ops[1])
            f = (lambda t: sx(t.mem.rd(t, ad(t), n), 8 * n)) if s else (lambda t: t.mem.rd(t, ad(t), n))
            return [s64(d, f) if b == 64 else s32(d, f)]
        st = {'st': 4, 'sty': 4, 'stg': 8, 'stc': 1, 'stcy': 1, 'sth': 2, 'sthy': 2}
        if m in st:
            n, s, ad = st[m], R(ops[0]), mem(ops[1])
            return [lambda t: t.mem.wr(t, ad(t), n, t.r[s])]
        if m in ('lpq', 'stpq'):
            d, ad = R(ops[0]), mem(ops[1])
            if m == 'lpq':
                def go(t):
                    v = t.mem.rd(t, ad(t), 16)
                    t.r[d], t.r[d + 1] = v >> 64, v & M
                return [go]
            return [lambda t: t.mem.wr(t, ad(t), 16, t.r[d] << 64 | t.r[d + 1])]
        if m in ('stmg', 'lmg'):
            a, b, ad = R(ops[0]), R(ops[1]), mem(ops[2])
            def one(k, i):
                if m == 'stmg':
                    return lambda t: t.mem.wr(t, (t.x['ea'] if i else t.x.__setitem__('ea', ad(t)) or t.x['ea']) + 8 * i, 8, t.r[k])
                return lambda t: t.r.__setitem__(k, t.mem.rd(t, (t.x['ea'] if i else t.x.__setitem__('ea', ad(t)) or t.x['ea']) + 8 * i, 8))
            return [one(k, i) for i, k in enumerate(range(a, b + 1))]
        if m == 'mvc':
            a = re.fullmatch(r'(\d+)\((\d+),(%r\d+)\)', ops[0])
            o, n, b, src = int(a.group(1)), int(a.group(2)), R(a.group(3)), mem(ops[1])
            def one(i):
                return lambda t: t.mem.wr(t, (o + (t.r[b] if b else 0) & M) + i, 1, t.mem.rd(t, src(t) + i, 1))
            return [one(i) for i in range(n)]
        if m in ('mvi', 'mviy'):
            ad, v = mem(ops[0]), num(ops[1])
            return [lambda t: t.mem.wr(t, ad(t), 1, v)]
        cs = {'cs': 4, 'csy': 4, 'csg': 8}
        if m in cs:
            n, d, s, ad = cs[m], R(ops[0]), R(ops[1]), mem(ops[2])
            k = (1 << 8 * n) - 1
            def go(t):
                mark(t)
                e = t.r[d] & k
                o = t.mem.rmw(t, ad(t), n, lambda x: t.r[s] if x == e else None, 'F')
                mark(t)
                t.x['cc'] = int(o != e)
                if o != e:
                    t.r[d] = o if n == 8 else t.r[d] & ~k | o
            return [go]
        if m == 'cdsg':
            d, s, ad = R(ops[0]), R(ops[1]), mem(ops[2])
            def go(t):
                mark(t)
                e = t.r[d] << 64 | t.r[d + 1]
                o = t.mem.rmw(t, ad(t), 16, lambda x: t.r[s] << 64 | t.r[s + 1] if x == e else None, 'F')
                mark(t)
                t.x['cc'] = int(o != e)
                t.r[d], t.r[d + 1] = o >> 64, o & M
            return [go]
        lf = {'laa': lambda o, v: o + v, 'lan': lambda o, v: o & v, 'lao': lambda o, v: o | v, 'lax': lambda o, v: o ^ v}
        a = re.fullmatch(r'(la[anox])(g)?', m)
        if a:
            n, d, s, ad, f = 8 if a.group(2) else 4, R(ops[0]), R(ops[1]), mem(ops[2]), lf[a.group(1)]
            def go(t):
                mark(t)
                o = t.mem.rmw(t, ad(t), n, lambda x: f(x, t.r[s]) & (1 << 8 * n) - 1, 'F')
                mark(t)
                t.r[d] = o if n == 8 else t.r[d] & ~0xffffffff | o
                t.x['cc'] = 3   # only its bits matter to nobody here
            return [go]
        # register operations
        two = {'ngr': (lambda x, y: x & y, 64), 'nr': (lambda x, y: x & y, 32), 'ogr': (lambda x, y: x | y, 64), 'or': (lambda x, y: x | y, 32), 'xgr': (lambda x, y: x ^ y, 64), 'xr': (lambda x, y: x ^ y, 32)}
        if m in two:
            f, b = two[m]
            d, s = R(ops[0]), R(ops[1])
            k = (1 << b) - 1
            def go(t):
                v = f(t.r[d], t.r[s]) & k
                t.r[d] = t.r[d] & ~k & M | v
                t.x['cc'] = int(v != 0)
            return [go]
        mv = {'lgr': (lambda x: x, 64), 'lr': (lambda x: x, 32), 'lcr': (lambda x: -x, 32), 'lcgr': (lambda x: -x, 64), 'llcr': (lambda x: x & 255, 32), 'llgcr': (lambda x: x & 255, 64), 'llhr': (lambda x: x & 0xffff, 32), 'llghr': (lambda x: x & 0xffff, 64), 'llgfr': (w, 64),
              'lgfr': (lambda x: sx(x, 32), 64), 'lbr': (lambda x: sx(x, 8), 32), 'lhr': (lambda x: sx(x, 16), 32), 'lgbr': (lambda x: sx(x, 8), 64), 'lghr': (lambda x: sx(x, 16), 64)}
        if m in mv:
            f, b = mv[m]
            d, s = R(ops[0]), R(ops[1])
            o = (s64 if b == 64 else s32)(d, lambda t: f(t.r[s]))
            if m in ('lcr', 'lcgr'):
                def cc(t):
                    v = sx(t.r[d], b)
                    t.x['cc'] = 0 if v == 0 else 1 if v < 0 else 2
                return [lambda t: (o(t), cc(t))]
            return [o]
        im = {'lghi': (64, sx), 'lhi': (32, sx)}
        if m in ('lghi', 'lhi', 'lgfi', 'llilf', 'llill', 'llilh', 'iilf'):
            d, v = R(ops[0]), num(ops[1])
            if m == 'llilh':
                v <<= 16
            return [(s32 if m in ('lhi', 'iilf') else s64)(d, lambda t: v)]
        if m in ('la', 'lay'):
            d, ad = R(ops[0]), mem(ops[1])
            return [s64(d, ad)]
        def addcc(v, b):
            return 0 if v == 0 else 1 if sx(v, b) < 0 else 2
        adds = {'afi': 32, 'ahi': 32, 'aghi': 64, 'agfi': 64, 'ar': 32, 'agr': 64, 'sr': 32, 'sgr': 64, 'ag': 64, 'a': 32}
        if m in adds:
            b, d = adds[m], R(ops[0])
            k = (1 << b) - 1
            if ops[1][0] == '%':
                s = R(ops[1])
                g = (lambda t: -sx(t.r[s], b)) if m[0] == 's' else (lambda t: sx(t.r[s], b))
            elif '(' in ops[1]:
                ad = mem(ops[1])
                g = lambda t: sx(t.mem.rd(t, ad(t), b // 8), b)
            else:
                v = num(ops[1])
                g = lambda t: v
            def go(t):
                x = sx(t.r[d], b) + g(t)
                t.x['cc'] = 3 if x != sx(x, b) else addcc(x & k, b)
                t.r[d] = t.r[d] & ~k & M | x & k
            return [go]
        if m in ('algfi', 'alfi', 'slgfi', 'slfi'):
            b, d, v = 64 if 'g' in m else 32, R(ops[0]), num(ops[1])
            k = (1 << b) - 1
            def go(t):
                x = (t.r[d] & k) + (v if m[0] == 'a' else (k + 1 - v))
                t.x['cc'] = (2 if x > k else 0) + int(x & k != 0)
                t.r[d] = t.r[d] & ~k & M | x & k
            return [go]
        a = re.fullmatch(r'risbg(n?)(z?)', m)
        if a:
            d, s, i3, i4 = R(ops[0]), R(ops[1]), num(ops[2]), num(ops[3])
            i5 = num(ops[4]) if len(ops) > 4 else 0
            z = a.group(2) or i4 & 128
            i4 &= 63
            full = M
            q = (full >> i3) & (full << 63 - i4 & full) if i3 <= i4 else (full >> i3) | (full << 63 - i4 & full)
            def go(t):
                v = t.r[s]
                v = (v << i5 | v >> 64 - i5) & M if i5 else v
                t.r[d] = v & q | (0 if z else t.r[d] & ~q & M)
                if not a.group(1):
                    t.x['cc'] = addcc(t.r[d], 64)
            return [go]
        if m in ('risblg', 'risbhg'):
            raise Unmodelled(text)
        sh = {'sll': 32, 'srl': 32, 'sra': 32}
        if m in sh or m in ('sllk', 'srlk', 'srak', 'sllg', 'srlg', 'srag', 'rll', 'rllg'):
            d = R(ops[0])
            s = R(ops[1]) if len(ops) == 3 else d
            o = ops[-1]
            amt = mem(o) if '(' in o else (lambda v: lambda t: v)(num(o))
            b = 64 if m.endswith('g') else 32
            k = (1 << b) - 1
            def go(t):
                n, v = amt(t) & 63, t.r[s] & k
                if m.startswith('rll'):
                    n %= b
                    x = (v << n | v >> b - n) & k
                elif m[1] == 'l' and m[:2] == 'sl':
                    x = v << n & k
                elif m.startswith('srl'):
                    x = v >> n
                else:
                    x = sx(v, b) >> n & k
                    t.x['cc'] = addcc(x, b)
                t.r[d] = t.r[d] & ~k & M | x
            return [go]
        cmps = {'cr': (32, 1), 'cgr': (64, 1), 'clr': (32, 0), 'clgr': (64, 0), 'clg': (64, 0), 'cg': (64, 1), 'cl': (32, 0), 'c': (32, 1), 'chi': (32, 1), 'cghi': (64, 1), 'clfi': (32, 0), 'clgfi': (64, 0), 'cfi': (32, 1), 'cgfi': (64, 1)}
        if m in cmps:
            b, sg = cmps[m]
            a, o = R(ops[0]), ops[1]
            k = (1 << b) - 1
            if o[0] == '%':
                s = R(o)
                g = lambda t: t.r[s] & k
            elif '(' in o:
                ad = mem(o)
                g = lambda t: t.mem.rd(t, ad(t), b // 8)
            else:
                v = num(o) & k
                g = lambda t: v
            def go(t):
                x, y = t.r[a] & k, g(t)
                if sg:
                    x, y = sx(x, b), sx(y, b)
                t.x['cc'] = 0 if x == y else 1 if x < y else 2
            return [go]
        if m in ('tmll', 'tmlh', 'tmhl', 'tmhh'):
            d, v = R(ops[0]), num(ops[1]) << {'tmll': 0, 'tmlh': 16, 'tmhl': 32, 'tmhh': 48}[m]
            def go(t):
                x = t.r[d] & v
                t.x['cc'] = 0 if x == 0 else 3 if x == v else 2 if x >> v.bit_length() - 1 else 1
            return [go]
        if m == 'ipm':
            d = R(ops[0])
            return [lambda t: t.r.__setitem__(d, t.r[d] & ~0xff000000 | t.x['cc'] << 28)]
        if m in ('bnor', 'bcr', 'br', 'bner'):
            if m == 'br' and R(ops[0]) == 14:
                def go(t):
                    t.npc = t.r[14]
                return [go]
            if m in ('br', 'bnor') and R(ops[0]) == 0 or m == 'bcr' and num(ops[0]) in (14, 15) and R(ops[1]) == 0:
                return [mark]
            raise Unmodelled(text)
        if m == 'j' or m == 'jg':
            tg = num(ops[0])
            def go(t):
                t.npc = tg
            return [go]
        if m[0] == 'j' and m[1:] in COND:
            q, tg = COND[m[1:]], num(ops[0])
            def go(t):
                if q >> 3 - t.x['cc'] & 1:
                    t.npc = tg
            return [go]
        a = re.fullmatch(r'c(l?)(g?)(r|i)j(e|ne|lh|nlh|l|h|le|he|nl|nh)', m)
        if a:
            b = 64 if a.group(2) else 32
            k = (1 << b) - 1
            x, q, tg = R(ops[0]), COND[a.group(4)], num(ops[2])
            y = R(ops[1]) if a.group(3) == 'r' else num(ops[1])
            def go(t):
                u, v = t.r[x] & k, (t.r[y] if a.group(3) == 'r' else y) & k
                if not a.group(1):
                    u, v = sx(u, b), sx(v, b)
                cc = 0 if u == v else 1 if u < v else 2
                if q >> 3 - cc & 1:
                    t.npc = tg
            return [go]
        a = re.fullmatch(r'(locr|locgr|locghi|lochi|selgr|selr)(e|ne|lh|nlh|l|h|le|he|nl|nh)', m)
        if a:
            q, d, b = COND[a.group(2)], R(ops[0]), 64 if 'g' in a.group(1) else 32
            setter = s64 if b == 64 else s32
            if a.group(1).startswith('sel'):
                x, y = R(ops[1]), R(ops[2])
                return [setter(d, lambda t: t.r[x] if q >> 3 - t.x['cc'] & 1 else t.r[y])]
            v = num(ops[1]) if 'hi' in a.group(1) else None
            s = None if v is not None else R(ops[1])
            return [setter(d, lambda t: (v if v is not None else t.r[s]) if q >> 3 - t.x['cc'] & 1 else t.r[d])]
        a = re.fullmatch(r'(ngrk|nrk|ogrk|ork|xgrk|xrk|ncrk|ncgrk|nngrk|agrk|ark|sgrk|srk|nilf|nilh|nill|nihf|oilf|xilf|aghik|ahik)', m)
        if a:
            if m.endswith('k') and not m.endswith('ik'):
                d, x, y = map(R, ops)
                b = 64 if 'g' in m else 32
                k = (1 << b) - 1
                f = {'n': lambda u, v: u & v, 'o': lambda u, v: u | v, 'x': lambda u, v: u ^ v, 'nc': lambda u, v: u & ~v, 'a': lambda u, v: u + v, 's': lambda u, v: u - v}[m.replace('g', '')[:-2]]
                def go(t):
                    v = f(t.r[x] & k, t.r[y] & k) & k
                    t.r[d] = t.r[d] & ~k & M | v
                    t.x['cc'] = int(v != 0) if m[0] in 'nox' else addcc(v, b)
                return [go]
            d = R(ops[0])
            if m in ('aghik', 'ahik'):
                s, v, b = R(ops[1]), num(ops[2]), 64 if 'g' in m else 32
                k = (1 << b) - 1
                def go(t):
                    u = sx(t.r[s], b) + v & k
                    t.r[d] = t.r[d] & ~k & M | u
                    t.x['cc'] = addcc(u, b)
                return [go]
            v = num(ops[1])
            lo = {'nilf': (0, 32), 'nill': (0, 16), 'nilh': (16, 16), 'nihf': (32, 32), 'oilf': (0, 32), 'xilf': (0, 32)}[m]
            def go(t):
                k = (1 << lo[1]) - 1
                f = t.r[d] >> lo[0] & k
                f = f & v if m[0] == 'n' else f | v if m[0] == 'o' else f ^ v
                t.r[d] = t.r[d] & ~(k << lo[0]) & M | f << lo[0]
                t.x['cc'] = int(f != 0)
            return [go]
        V = lambda s: 'v' + s.replace('%v', '')
        if m in ('vl', 'vst'):     # two doublewords: not one access
            v, ad = V(ops[0]), mem(ops[1])
            if m == 'vl':
                def hi(t):
                    t.x['ea'] = ad(t)
                    t.x[v] = t.mem.rd(t, t.x['ea'], 8) << 64
                def lo(t):
                    t.x[v] |= t.mem.rd(t, t.x['ea'] + 8 & M, 8)
            else:
                def hi(t):
                    t.x['ea'] = ad(t)
                    t.mem.wr(t, t.x['ea'], 8, t.x.get(v, 0) >> 64)
                def lo(t):
                    t.mem.wr(t, t.x['ea'] + 8 & M, 8, t.x.get(v, 0) & M)
            return [hi, lo]
        if m == 'vlvgp':
            v, x, y = V(ops[0]), R(ops[1]), R(ops[2])
            return [lambda t: t.x.__setitem__(v, t.r[x] << 64 | t.r[y])]
        if m == 'vlgvg' and ops[2] in '01':
            d, v, sh = R(ops[0]), V(ops[1]), 64 - 64 * int(ops[2])
            return [s64(d, lambda t: t.x.get(v, 0) >> sh)]
        if m == 'vceqgs':
            d, x, y = map(V, ops)
            def go(t):
                a, b = t.x.get(x, 0), t.x.get(y, 0)
                q = [(a ^ b) >> 64 & M == 0, (a ^ b) & M == 0]
                t.x[d] = (M if q[0] else 0) << 64 | (M if q[1] else 0)
                t.x['cc'] = 0 if all(q) else 1 if any(q) else 3
            return [go]
        if m in ('vx', 'vn', 'vo'):
            d, x, y = map(V, ops)
            f = {'vx': lambda a, b: a ^ b, 'vn': lambda a, b: a & b, 'vo': lambda a, b: a | b}[m]
            return [lambda t: t.x.__setitem__(d, f(t.x.get(x, 0), t.x.get(y, 0)))]
        a = re.fullmatch(r'loc(g?)(e|ne|lh|nlh|l|h|le|he|nl|nh)', m)
        if a:
            q, d, ad, n = COND[a.group(2)], R(ops[0]), mem(ops[1]), 8 if a.group(1) else 4
            setter = s64 if n == 8 else s32
            return [setter(d, lambda t: t.mem.rd(t, ad(t), n) if q >> 3 - t.x['cc'] & 1 else t.r[d])]
        if m == 'nop' or m == 'nopr':
            return [lambda t: None]
        raise Unmodelled(text)
