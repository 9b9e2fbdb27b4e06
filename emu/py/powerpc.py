from core import *

class Arch(Base):
    high = True
    nreg = 32
    def __init__(self, bits, end):
        self.bits, self.end, self.word, self.m = bits, end, bits // 8, (1 << bits) - 1
        self.callee = [1, 2, 13] + list(range(14, 32))
    def start(self, t, arg, sp):
        t.r[1], t.r[3] = sp & ~15, arg
        t.x['lr'] = RET
        t.x['cr0'] = t.x['cr'] = t.r[0] & 0xffffffff
    def at_return(self, t):
        # condition fields 2-4 belong to the caller
        if (t.x['cr'] ^ t.x['cr0']) & 0x00fff000:
            return [f'condition register is {t.x["cr"]:#x} at return, was {t.x["cr0"]:#x}: fields 2-4 must be preserved']
        return []
    def decode(self, addr, text, rel, sec):
        p = text.split('#')[0].split(None, 1)
        m, ops = p[0], split(re.sub(r'<[^<>]*>', '', p[1])) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        B, M = self.bits, self.m
        R = lambda s: int(s)
        def setcr(t, field, lt, gt, eq):
            sh = 28 - 4 * field
            t.x['cr'] = t.x['cr'] & ~(15 << sh) & 0xffffffff | (lt << 3 | gt << 2 | eq << 1) << sh
        dot = m.endswith('.') and m not in ('andi.', 'andis.')
        k = m[:-1] if dot else m
        def setr(d, f):
            def g(t):
                v = f(t) & M
                t.r[d] = v
                if dot or m in ('andi.', 'andis.'):
                    s = sx(v, B)
                    setcr(t, 0, s < 0, s > 0, s == 0)
            return g
        w = lambda v: v & 0xffffffff
        rot = lambda v, n: (w(v) << (n & 31) | w(v) >> (32 - (n & 31))) & 0xffffffff
        rot64 = lambda v, n: (v << (n & 63) | v >> (64 - (n & 63))) & (1 << 64) - 1 if n & 63 else v
        def mask(b, e, n):
            # bits b..e numbered from the left, wrapping
            full = (1 << n) - 1
            a = full >> b
            c = full << (n - 1 - e) & full
            return a & c if b <= e else a | c
        f3 = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'andc': lambda x, y: x & ~y, 'orc': lambda x, y: x | ~y, 'nor': lambda x, y: ~(x | y), 'nand': lambda x, y: ~(x & y), 'eqv': lambda x, y: ~(x ^ y),
              'add': lambda x, y: x + y, 'mullw': lambda x, y: sx(x, 32) * sx(y, 32),
              'slw': lambda x, y: 0 if y & 32 else w(x << (y & 31)), 'srw': lambda x, y: 0 if y & 32 else w(x) >> (y & 31), 'sld': lambda x, y: 0 if y & 64 else x << (y & 63), 'srd': lambda x, y: 0 if y & 64 else x >> (y & 63), 'subf': lambda x, y: y - x, 'sub': lambda x, y: x - y}
        if k in f3 and len(ops) == 3:
            d, a, b, f = *map(R, ops), f3[k]
            return [setr(d, lambda t: f(t.r[a], t.r[b]))]
        if k in ('addi', 'addis', 'subi'):
            d, a, i = R(ops[0]), R(ops[1]), num(ops[2]) << (16 if k == 'addis' else 0)
            if k == 'subi':
                i = -i
            return [setr(d, lambda t: (t.r[a] if a else 0) + i)]
        li = {'ori': lambda x, y: x | y, 'xori': lambda x, y: x ^ y, 'andi.': lambda x, y: x & y, 'oris': lambda x, y: x | y << 16, 'xoris': lambda x, y: x ^ y << 16, 'andis.': lambda x, y: x & y << 16}
        if m in li:
            d, a, i, f = R(ops[0]), R(ops[1]), num(ops[2]) & 0xffff, li[m]
            return [setr(d, lambda t: f(t.r[a], i))]
        if k == 'pli':
            d, i = R(ops[0]), num(ops[1])
            return [setr(d, lambda t: i)]
        if k in ('li', 'lis'):
            d, i = R(ops[0]), sx(num(ops[1]) << 16, 32) if k == 'lis' else num(ops[1])
            return [setr(d, lambda t: i)]
        un = {'mr': lambda x: x, 'not': lambda x: ~x, 'neg': lambda x: -x, 'extsb': lambda x: sx(x, 8), 'extsh': lambda x: sx(x, 16), 'extsw': lambda x: sx(x, 32), 'cntlzw': lambda x: 32 - w(x).bit_length(), 'cntlzd': lambda x: 64 - x.bit_length()}
        if k in un:
            d, a, f = R(ops[0]), R(ops[1]), un[k]
            return [setr(d, lambda t: f(t.r[a]))]
        if k in ('clrlwi', 'clrldi', 'slwi', 'srwi', 'sldi', 'srdi', 'rotlwi', 'rotldi', 'clrrwi', 'clrrdi', 'rldicl', 'rldicr', 'rldic', 'rldimi', 'rlwinm', 'rlwimi', 'rotlw', 'rlwnm'):
            d, a, i = R(ops[0]), R(ops[1]), num(ops[2])
            x = [num(o) for o in ops[3:]]
            def f(t):
                v = t.r[a]
                if k == 'clrlwi': return w(v) & (0xffffffff >> i)
                if k == 'clrldi': return v & ((1 << 64) - 1 >> i)
                if k == 'clrrwi': return w(v) >> i << i
                if k == 'clrrdi': return v >> i << i
                if k == 'slwi': return w(v << i)
                if k == 'srwi': return w(v) >> i
                if k == 'sldi': return v << i
                if k == 'srdi': return v >> i
                if k == 'rotlwi': return rot(v, i)
                if k == 'rotlw': return rot(v, t.r[i])
                if k == 'rotldi': return rot64(v, i)
                if k == 'rldicl': return rot64(v, i) & mask(x[0], 63, 64)
                if k == 'rldicr': return rot64(v, i) & mask(0, x[0], 64)
                if k == 'rldic': return rot64(v, i) & mask(x[0], 63 - i, 64)
                if k == 'rldimi':
                    q = mask(x[0], 63 - i, 64)
                    return rot64(v, i) & q | t.r[d] & ~q
                if k in ('rlwinm', 'rlwnm'): return rot(v, i if k == 'rlwinm' else t.r[i]) & mask(x[0], x[1], 32)
                if k == 'rlwimi':
                    q = mask(x[0], x[1], 32)
                    return rot(v, i) & q | t.r[d] & ~q
            return [setr(d, f)]
        a = re.fullmatch(r'cmp(l?)([wd])(i?)', m)
        if a:
            fld = 0
            if len(ops) == 3:
                fld = num(ops[0].replace('cr', ''))
                ops = ops[1:]
            x, n, lg = R(ops[0]), 32 if a.group(2) == 'w' else 64, a.group(1)
            if a.group(3):
                i = num(ops[1])
                gy = lambda t: i
            else:
                b = R(ops[1])
                gy = lambda t: t.r[b]
            def go(t):
                u, v = (t.r[x] & (1 << n) - 1, gy(t) & (1 << n) - 1) if lg else (sx(t.r[x], n), sx(gy(t), n))
                setcr(t, fld, u < v, u > v, u == v)
            return [go]
        def bit(s):
            a = re.fullmatch(r'(?:4\*cr(\d)\+)?(lt|gt|eq|un|so)', s)
            if a:
                return 4 * int(a.group(1) or 0) + {'lt': 0, 'gt': 1, 'eq': 2, 'un': 3, 'so': 3}[a.group(2)]
            return num(s)
        get = lambda t, b: t.x['cr'] >> 31 - b & 1
        c = m.rstrip('+-')
        names = {'beq': (2, 1), 'bne': (2, 0), 'blt': (0, 1), 'bge': (0, 0), 'bgt': (1, 1), 'ble': (1, 0)}
        if c in ('bt', 'bf') or c in names:
            if c in names:
                q, want = names[c]
                if len(ops) > 1:
                    q += 4 * int(ops[0].replace('cr', ''))
            else:
                q, want = bit(ops[0]), c == 'bt'
            tg = num(ops[-1])
            def go(t):
                t.mem.fence(t, 'branch')
                if get(t, q) == want:
                    t.npc = tg
            return [go]
        if c == 'b':
            tg = num(ops[0])
            def go(t):
                t.npc = tg
            return [go]
        if c == 'blr':
            def go(t):
                t.npc = t.x['lr']
            return [go]
        if m == 'nop':
            return [lambda t: None]
        if m == 'mfcr':
            d = R(ops[0])
            return [setr(d, lambda t: t.x['cr'])]
        if m == 'mfocrf':
            d = R(ops[0])
            return [setr(d, lambda t: t.x['cr'])]
        if m in ('mtcr', 'mtcrf', 'mtocrf'):
            s = R(ops[-1])
            fx = num(ops[0]) if len(ops) > 1 else 255
            msk = sum(15 << 4 * i for i in range(8) if fx >> i & 1)
            def go(t):
                t.x['cr'] = t.x['cr'] & ~msk | t.r[s] & msk
            return [go]
        CR = {'crand': lambda x, y: x & y, 'cror': lambda x, y: x | y, 'crxor': lambda x, y: x ^ y, 'crnand': lambda x, y: 1 - (x & y), 'crnor': lambda x, y: 1 - (x | y), 'creqv': lambda x, y: 1 - (x ^ y), 'crandc': lambda x, y: x & 1 - y, 'crorc': lambda x, y: x | 1 - y}
        CA = {'crmove': 'cror', 'crnot': 'crnor', 'crclr': 'crxor', 'crset': 'creqv'}
        if m in CR or m in CA:
            d, x, y = bit(ops[0]), bit(ops[min(1, len(ops) - 1)]), bit(ops[-1])
            f = CR[CA.get(m, m)]
            def go(t):
                t.x['cr'] = t.x['cr'] & ~(1 << 31 - d) | f(get(t, x), get(t, y)) << 31 - d
            return [go]
        a = re.fullmatch(r'isel(lt|gt|eq)?', m)
        if a:
            d, x, y = map(R, ops[:3])
            q = bit(a.group(1)) if a.group(1) else bit(ops[3])
            return [setr(d, lambda t: (t.r[x] if x else 0) if get(t, q) else t.r[y])]
        if m in ('setbc', 'setbcr'):
            d, q = R(ops[0]), bit(ops[1])
            return [setr(d, lambda t: int(get(t, q) == (m == 'setbc')))]
        if m in ('sync', 'hwsync', 'lwsync', 'ptesync', 'eieio', 'isync'):
            kind = 'isync' if m == 'isync' else [('R', 'RW'), ('W', 'W')] if m == 'lwsync' else [('W', 'W')] if m == 'eieio' else [('RW', 'RW')]
            if m == 'sync' and ops and num(ops[0]) == 1:
                kind = [('R', 'RW'), ('W', 'W')]
            return [lambda t: t.mem.fence(t, kind)]
        def mem(s):
            a = re.fullmatch(r'(-?\w+)?\((\w+)\)', s)
            o, b = int(a.group(1) or '0', 0), R(a.group(2))
            return lambda t: (t.r[b] if b else 0) + o & M
        sz = {'b': 1, 'h': 2, 'w': 4, 'd': 8, 'q': 16}
        if m in ('stwu', 'stdu'):
            s, a = R(ops[0]), re.fullmatch(r'(-?\w+)\((\w+)\)', ops[1])
            o, b, n = int(a.group(1), 0), R(a.group(2)), sz[m[2]]
            def go(t):
                x = t.r[b] + o & M
                t.mem.wr(t, x, n, t.r[s])
                t.r[b] = x
            return [go]
        a = re.fullmatch(r'l([bhwd])(z|a)?(x)?', m)
        if a and m != 'lwarx':
            n, d = sz[a.group(1)], R(ops[0])
            if a.group(3):
                x, y = R(ops[1]), R(ops[2])
                ad = lambda t: (t.r[x] if x else 0) + t.r[y] & M
            else:
                ad = mem(ops[1])
            return [setr(d, lambda t: sx(t.mem.rd(t, ad(t), n), 8 * n) if a.group(2) == 'a' else t.mem.rd(t, ad(t), n))]
        a = re.fullmatch(r'st([bhwd])(x)?', m)
        if a:
            n, s = sz[a.group(1)], R(ops[0])
            if a.group(2):
                x, y = R(ops[1]), R(ops[2])
                ad = lambda t: (t.r[x] if x else 0) + t.r[y] & M
            else:
                ad = mem(ops[1])
            return [lambda t: t.mem.wr(t, ad(t), n, t.r[s])]
        if m in ('lxvd2x', 'stxvd2x'):
            x, y = R(ops[1]), R(ops[2])
            return vcopy(m[0] == 's', ops[0], lambda t: (t.r[x] if x else 0) + t.r[y] & M, 'd2x')
        if m in ('lxv', 'stxv'):
            return vcopy(m[0] == 's', ops[0], mem(ops[1]), 'xv')
        hi64 = lambda v: v >> 64
        if m in ('lq', 'stq'):
            d, ad = R(ops[0]), mem(ops[1])
            if d & 1:
                raise Unmodelled(text)
            if m == 'lq':
                def go(t):
                    v = t.mem.rd(t, ad(t), 16)
                    t.r[d], t.r[d + 1] = v >> 64, v & M
                return [go]
            return [lambda t: t.mem.wr(t, ad(t), 16, t.r[d] << 64 | t.r[d + 1])]
        a = re.fullmatch(r'l([bhwdq])arx', m)
        if a:
            n, d, x, y = sz[a.group(1)], R(ops[0]), R(ops[1]), R(ops[2])
            ad = lambda t: (t.r[x] if x else 0) + t.r[y] & M
            def go(t):
                v = t.mem.ll(t, ad(t), n, '')
                if n == 16:
                    t.r[d], t.r[d + 1] = v >> 64, v & M
                else:
                    t.r[d] = v
            return [go]
        a = re.fullmatch(r'st([bhwdq])cx\.', m)
        if a:
            n, d, x, y = sz[a.group(1)], R(ops[0]), R(ops[1]), R(ops[2])
            ad = lambda t: (t.r[x] if x else 0) + t.r[y] & M
            def go(t):
                v = t.r[d] << 64 | t.r[d + 1] if n == 16 else t.r[d]
                setcr(t, 0, 0, 0, int(t.mem.sc(t, ad(t), n, v, '')))
            return [go]
        raise Unmodelled(text)
