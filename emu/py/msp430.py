from core import *
CB, ZB, NB, GIE, VB = 0, 1, 2, 3, 8
class Arch(Base):
    interrupts = True
    def __init__(self):
        self.bits, self.word, self.nreg, self.container, self.redzone = 16, 2, 16, 1, 16
        self.callee = [1] + list(range(4, 11))
    def start(self, t, arg, sp):
        sp &= ~1
        t.r[1] = sp - 2
        t.mem.find(t, sp - 2, 2, 'W')
        t.mem.wr(t, sp - 2, 2, RET & 0xffff)
        t.r[12] = arg
        t.r[2] &= 0x10f
        t.x['late'] = 0
    def intr(self, t, on):
        t.x['i'] = on
        t.r[2] = t.r[2] & ~8 | on << 3
    def enabled(self, t):
        # the instruction after DINT may still be followed by an interrupt
        return t.r[2] >> GIE & 1 or t.x['late'] > 0
    def at_return(self, t):
        on = t.r[2] >> GIE & 1
        if 'i' in t.x and on != t.x['i']:
            return ['interrupts are ' + ('enabled' if on else 'disabled') + ' at return, were ' + ('enabled' if t.x['i'] else 'disabled')]
        return []
    def decode(self, addr, text, rel, sec):
        f = self.decode1(addr, text, rel, sec)
        def wrap(g):
            def h(t):
                was = t.r[2] >> GIE & 1
                g(t)
                t.x['late'] = 2 if was and not t.r[2] >> GIE & 1 else max(0, t.x['late'] - 1)
            return h
        return [wrap(g) for g in f]
    def decode1(self, addr, text, rel, sec):
        p = text.split(None, 1)
        m, ops = p[0], split(p[1]) if len(p) > 1 else []
        if rel:
            raise Unmodelled(text + str(rel))
        n = 1 if m.endswith('.b') else 2
        m = m.split('.')[0]
        mask, top = (1 << 8 * n) - 1, 8 * n - 1
        def src(s):
            if s[0] == '#':
                v = num(s[1:]) & mask
                return lambda t: v
            a = re.fullmatch(r'r(\d+)', s)
            if a:
                k = int(a.group(1))
                return lambda t: t.r[k] & mask
            a = re.fullmatch(r'@r(\d+)(\+?)', s)
            if a:
                k, inc = int(a.group(1)), a.group(2)
                def f(t):
                    v = t.mem.rd(t, t.r[k], n)
                    if inc:
                        t.r[k] = t.r[k] + n & 0xffff
                    return v
                return f
            a = re.fullmatch(r'(-?\w+)\(r(\d+)\)', s)
            k, o = int(a.group(2)), int(a.group(1), 0)
            return lambda t: t.mem.rd(t, t.r[k] + o & 0xffff, n)
        def dst(s):
            a = re.fullmatch(r'r(\d+)', s)
            if a:
                k = int(a.group(1))
                def f(t, v):
                    t.r[k] = v & mask
                return f
            a = re.fullmatch(r'(-?\w+)\(r(\d+)\)', s)
            k, o = int(a.group(2)), int(a.group(1), 0)
            return lambda t, v: t.mem.wr(t, t.r[k] + o & 0xffff, n, v & mask)
        def flags(t, z, ng, c, v):
            t.r[2] = t.r[2] & ~0x107 | (1 if c else 0) | (2 if z else 0) | (4 if ng else 0) | (0x100 if v else 0)
        def addc(t, a, b, c):
            v = a + b + c
            r = v & mask
            flags(t, r == 0, r >> top, v > mask, (~(a ^ b) & (a ^ r)) >> top & 1)
            return r
        def logic(t, r):
            flags(t, r == 0, r >> top, r != 0, 0)
            return r
        if m == 'mov':
            s, d = src(ops[0]), dst(ops[1])
            return [lambda t: d(t, s(t))]
        if m == 'clr':
            d = dst(ops[0])
            return [lambda t: d(t, 0)]
        two = {'add': lambda t, a, b: addc(t, b, a, 0), 'addc': lambda t, a, b: addc(t, b, a, t.r[2] & 1), 'sub': lambda t, a, b: addc(t, b, ~a & mask, 1),
               'subc': lambda t, a, b: addc(t, b, ~a & mask, t.r[2] & 1), 'and': lambda t, a, b: logic(t, a & b), 'xor': lambda t, a, b: logic(t, a ^ b),
               'bis': lambda t, a, b: a | b, 'bic': lambda t, a, b: b & ~a}
        if m in two:
            f, s, g, d = two[m], src(ops[0]), src(ops[1]), dst(ops[1])
            return [lambda t: d(t, f(t, s(t), g(t)))]
        if m in ('cmp', 'bit'):
            s, g = src(ops[0]), src(ops[1])
            if m == 'cmp':
                return [lambda t: addc(t, g(t), ~s(t) & mask, 1) and None]
            return [lambda t: logic(t, g(t) & s(t)) and None]
        if m == 'tst':
            g = src(ops[0])
            return [lambda t: addc(t, g(t), mask, 1) and None]
        one = {'inc': lambda t, a: addc(t, a, 1, 0), 'incd': lambda t, a: addc(t, a, 2, 0), 'dec': lambda t, a: addc(t, a, mask - 0, 0), 'decd': lambda t, a: addc(t, a, mask - 1, 0),
               'inv': lambda t, a: logic(t, ~a & mask), 'rla': lambda t, a: addc(t, a, a, 0), 'adc': lambda t, a: addc(t, a, 0, t.r[2] & 1)}
        def rra(t, a):
            r = a >> 1 | a & 1 << top
            flags(t, r == 0, r >> top, a & 1, 0)
            return r
        def rrc(t, a):
            r = a >> 1 | (t.r[2] & 1) << top
            flags(t, r == 0, r >> top, a & 1, 0)
            return r
        one['rra'], one['rrc'] = rra, rrc
        if m == 'sxt':
            k = int(ops[0][1:])
            def go(t):
                t.r[k] = logic(t, sx(t.r[k], 8) & 0xffff)
            return [go]
        if m == 'swpb':
            k = int(ops[0][1:])
            def go(t):
                t.r[k] = t.r[k] >> 8 | (t.r[k] & 255) << 8
            return [go]
        if m in one:
            f, g, d = one[m], src(ops[0]), dst(ops[0])
            return [lambda t: d(t, f(t, g(t)))]
        if m in ('dint', 'eint'):
            def go(t):
                t.r[2] = t.r[2] & ~8 | (8 if m == 'eint' else 0)
            return [go]
        if m == 'nop':
            return [lambda t: None]
        if m == 'push':
            s = src(ops[0])
            def go(t):
                v = s(t)
                t.r[1] = t.r[1] - 2 & 0xffff
                t.mem.wr(t, t.r[1], 2, v)
            return [go]
        if m == 'pop':
            d = dst(ops[0])
            def go(t):
                v = t.mem.rd(t, t.r[1], 2)
                t.r[1] = t.r[1] + 2 & 0xffff
                d(t, v)
            return [go]
        br = {'jeq': lambda s: s & 2, 'jz': lambda s: s & 2, 'jne': lambda s: not s & 2, 'jnz': lambda s: not s & 2, 'jlo': lambda s: not s & 1, 'jnc': lambda s: not s & 1, 'jhs': lambda s: s & 1, 'jc': lambda s: s & 1,
              'jn': lambda s: s & 4, 'jge': lambda s: not (s >> 2 ^ s >> 8) & 1, 'jl': lambda s: (s >> 2 ^ s >> 8) & 1, 'jmp': lambda s: True}
        if m in br:
            f, tg = br[m], addr + int(ops[0][1:])
            def go(t):
                if f(t.r[2]):
                    t.npc = tg
            return [go]
        if m == 'ret':
            def go(t):
                v = t.mem.rd(t, t.r[1], 2)
                if v != RET & 0xffff:
                    raise Fault(f'return to {v:#x}')
                t.npc = RET
            return [go]
        raise Unmodelled(text)
