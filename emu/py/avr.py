from core import *
C, Z, N, V, S, H, T, I = range(8)
class Arch(Base):
    interrupts = True
    def __init__(self):
        self.bits, self.word, self.nreg, self.container, self.redzone = 8, 2, 34, 1, 16
        self.callee = list(range(2, 18)) + [28, 29, 32]
    def rname(self, k):
        return 'sp' if k == 32 else f'r{k}'
    def start(self, t, arg, sp):
        t.r[1] = 0
        t.r[24], t.r[25] = arg & 255, arg >> 8
        t.r[32] = sp - 3           # the return address above the stack pointer
        t.r[33] &= 0x7f
        t.x['ret'] = sp - 3
    def intr(self, t, on):
        t.x['i'] = on
        t.r[33] = t.r[33] & 0x7f | on << 7
    def enabled(self, t):
        return t.r[33] >> 7 & 1
    def at_return(self, t):
        bad = []
        if t.r[1]:
            bad.append(f'the zero register r1 is {t.r[1]:#x} at return')
        if 'i' in t.x and t.r[33] >> 7 != t.x['i']:
            bad.append('interrupts are ' + ('enabled' if t.r[33] >> 7 else 'disabled') + ' at return, were ' + ('enabled' if t.x['i'] else 'disabled'))
        return bad
    def decode(self, addr, text, rel, sec):
        p = text.split(None, 1)
        m, ops = p[0], split(p[1]) if len(p) > 1 else []
        R = lambda s: int(re.fullmatch(r'r(\d+)', s).group(1))
        def flags(t, **k):
            s = t.r[33]
            for n, v in k.items():
                b = 'CZNVSHTI'.index(n)
                s = s & ~(1 << b) | (1 if v else 0) << b
            t.r[33] = s
        def logic(t, v):
            flags(t, Z=v == 0, N=v >> 7, V=0, S=v >> 7)
        def subf(t, a, b, c, keepz):
            v = a - b - c
            r = v & 255
            n = r >> 7
            o = ((a ^ b) & (a ^ r)) >> 7 & 1
            z = r == 0 and (t.r[33] >> 1 & 1 if keepz else 1)
            flags(t, C=v < 0, Z=z, N=n, V=o, S=n ^ o, H=(a & 15) - (b & 15) - c < 0)
            return r
        def addf(t, a, b, c):
            v = a + b + c
            r = v & 255
            n = r >> 7
            o = (~(a ^ b) & (a ^ r)) >> 7 & 1
            flags(t, C=v > 255, Z=r == 0, N=n, V=o, S=n ^ o, H=(a & 15) + (b & 15) + c > 15)
            return r
        cy = lambda t: t.r[33] & 1
        if m in ('mov', 'eor', 'and', 'or', 'add', 'adc', 'sub', 'sbc', 'cp', 'cpc', 'cpse'):
            d, s = R(ops[0]), R(ops[1])
            def go(t):
                a, b = t.r[d], t.r[s]
                if m == 'mov':
                    t.r[d] = b
                elif m in ('eor', 'and', 'or'):
                    v = t.r[d] = a ^ b if m == 'eor' else a & b if m == 'and' else a | b
                    logic(t, v)
                elif m in ('add', 'adc'):
                    t.r[d] = addf(t, a, b, cy(t) if m == 'adc' else 0)
                elif m in ('sub', 'sbc', 'cp', 'cpc'):
                    c = m in ('sbc', 'cpc')
                    v = subf(t, a, b, cy(t) if c else 0, c)
                    if m[0] == 's':
                        t.r[d] = v
                else:
                    raise Unmodelled(text)
            return [go]
        if m == 'movw':
            d, s = R(ops[0]), R(ops[1])
            def go(t):
                t.r[d], t.r[d + 1] = t.r[s], t.r[s + 1]
            return [go]
        if m in ('ldi', 'cpi', 'subi', 'sbci', 'andi', 'ori'):
            d, k = R(ops[0]), num(ops[1]) & 255
            if rel:
                raise Unmodelled(text + str(rel))
            def go(t):
                a = t.r[d]
                if m == 'ldi':
                    t.r[d] = k
                elif m in ('andi', 'ori'):
                    t.r[d] = a & k if m == 'andi' else a | k
                    logic(t, t.r[d])
                else:
                    v = subf(t, a, k, cy(t) if m == 'sbci' else 0, m == 'sbci')
                    if m != 'cpi':
                        t.r[d] = v
            return [go]
        if m in ('adiw', 'sbiw'):
            d, k = R(ops[0]), num(ops[1])
            def go(t):
                a = t.r[d] | t.r[d + 1] << 8
                v = a + k if m == 'adiw' else a - k
                r = v & 0xffff
                n = r >> 15
                o = ((~a & r) if m == 'adiw' else (a & ~r)) >> 15 & 1
                flags(t, C=v != r, Z=r == 0, N=n, V=o, S=n ^ o)
                t.r[d], t.r[d + 1] = r & 255, r >> 8
            return [go]
        if m in ('inc', 'dec', 'com', 'neg', 'tst', 'clr', 'lsr', 'ror', 'asr', 'lsl', 'rol', 'swap', 'ser'):
            d = R(ops[0])
            def go(t):
                a = t.r[d]
                if m in ('inc', 'dec'):
                    v = a + (1 if m == 'inc' else -1) & 255
                    o = v == (0x80 if m == 'inc' else 0x7f)
                    flags(t, Z=v == 0, N=v >> 7, V=o, S=v >> 7 ^ o)
                elif m == 'com':
                    v = ~a & 255
                    logic(t, v)
                    flags(t, C=1)
                elif m == 'neg':
                    v = subf(t, 0, a, 0, False)
                elif m == 'tst':
                    v = a
                    logic(t, v)
                elif m == 'clr':
                    v = 0
                    logic(t, v)
                elif m == 'swap':
                    v = a >> 4 | (a & 15) << 4
                elif m == 'ser':
                    v = 255
                elif m in ('lsl', 'rol'):
                    v = addf(t, a, a, cy(t) if m == 'rol' else 0)
                else:
                    v = a >> 1 | (cy(t) << 7 if m == 'ror' else a & 0x80 if m == 'asr' else 0)
                    c, n = a & 1, v >> 7
                    flags(t, C=c, Z=v == 0, N=n, V=n ^ c, S=c)
                t.r[d] = v
            return [go]
        if m == 'in':
            d, io = R(ops[0]), num(ops[1])
            def go(t):
                t.r[d] = t.r[33] if io == 0x3f else t.r[32] & 255 if io == 0x3d else t.r[32] >> 8
            if io not in (0x3d, 0x3e, 0x3f):
                raise Unmodelled(text)
            return [go]
        if m == 'out':
            io, s = num(ops[0]), R(ops[1])
            if io not in (0x3d, 0x3e, 0x3f):
                raise Unmodelled(text)
            def go(t):
                v = t.r[s]
                if io == 0x3f:
                    t.r[33] = v
                elif io == 0x3d:
                    t.r[32] = t.r[32] & 0xff00 | v
                else:
                    t.r[32] = t.r[32] & 255 | v << 8
            return [go]
        if m in ('cli', 'sei', 'sec', 'clc', 'clt', 'set', 'clz', 'sez'):
            b = 'CZNVSHTI'[{'i': I, 'c': C, 't': T, 'z': Z}[m[2] if m not in ('set',) else 't']]
            v = 1 if m[:2] == 'se' else 0
            return [lambda t: flags(t, **{b: v})]
        a = re.fullmatch(r'(ld|ldd|st|std) (.*)', text)
        if a:
            k = m[:2]
            reg, ea = (ops[0], ops[1]) if k == 'ld' else (ops[1], ops[0])
            d = R(reg)
            a = re.fullmatch(r'(-?)([XYZ])(?:\+(\d+|0x[0-9a-f]+))?(\+?)', ea)
            b = {'X': 26, 'Y': 28, 'Z': 30}[a.group(2)]
            q = int(a.group(3) or '0', 0)
            pre, post = bool(a.group(1)), bool(a.group(4))
            def go(t):
                x = t.r[b] | t.r[b + 1] << 8
                if pre:
                    x = x - 1 & 0xffff
                if k == 'ld':
                    t.r[d] = t.mem.rd(t, x + q & 0xffff, 1)
                else:
                    t.mem.wr(t, x + q & 0xffff, 1, t.r[d])
                if post:
                    x = x + 1 & 0xffff
                if pre or post:
                    t.r[b], t.r[b + 1] = x & 255, x >> 8
            return [go]
        if m == 'push' or m == 'pop':
            d = R(ops[0])
            def go(t):
                if m == 'push':
                    t.mem.wr(t, t.r[32], 1, t.r[d])
                    t.r[32] = t.r[32] - 1 & 0xffff
                else:
                    t.r[32] = t.r[32] + 1 & 0xffff
                    t.r[d] = t.mem.rd(t, t.r[32], 1)
            return [go]
        br = {'breq': (Z, 1), 'brne': (Z, 0), 'brlo': (C, 1), 'brcs': (C, 1), 'brsh': (C, 0), 'brcc': (C, 0), 'brmi': (N, 1), 'brpl': (N, 0), 'brlt': (S, 1), 'brge': (S, 0), 'brtc': (T, 0), 'brts': (T, 1)}
        if m in br or m == 'rjmp':
            if rel:
                x = re.fullmatch(r'R_AVR_(?:7|13)_PCREL\s+(\S+?)(?:\+(0x[0-9a-f]+))?', rel[0][1])
                if not x or not x.group(1).startswith('.'):
                    raise Unmodelled(text + rel[0][1])
                tg = int(x.group(2) or '0', 16)
            else:
                tg = addr + 2 + int(ops[0][1:])
            if m == 'rjmp':
                def go(t):
                    t.npc = tg
            else:
                b, v = br[m]
                def go(t):
                    if t.r[33] >> b & 1 == v:
                        t.npc = tg
            return [go]
        if m == 'ret':
            def go(t):
                if t.r[32] != t.x['ret']:
                    raise Fault(f'return with the stack pointer at {t.r[32]:#x}, was {t.x["ret"]:#x}')
                t.npc = RET
            return [go]
        if m == 'nop':
            return [lambda t: None]
        raise Unmodelled(text)
