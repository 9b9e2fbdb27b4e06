"""Generated Rust programs, compiled with the crate by the optimiser and run; oracle: an interpreter of the same program (C04 C07 C13).

A program has plain and atomic variables and straight-line segments. In 'pp' programs two threads take turns: the end of a segment is
a release operation on a flag, the start of the next one (in the other thread) an acquire operation, so the outcome is that of running
the segments in order, whatever the timing. In 'st' programs there is one thread."""
import json, os, random, hashlib, re, shutil
from vlib import *
import vlib

M64 = (1 << 64) - 1
ORD = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']
OLOAD, OSTORE, OANY = [0, 2, 4], [0, 1, 4], [0, 1, 2, 3, 4]

def bits(ty, ptr):
    return ptr if ty in ('isize', 'usize') else int(ty[1:])
def uty(ty):
    return 'u' + ty[1:] if ty not in ('isize', 'usize') else 'usize'

# partly initialised values: name -> (bits, [(field, type)])
PARTS = {
 'P16a': (16, [('a', 'u8')]),
 'P32a': (32, [('a', 'u8'), ('b', 'u16')]),
 'P32b': (32, [('a', 'u16'), ('b', 'u8')]),
 'P64a': (64, [('a', 'u8'), ('b', 'u32')]),
 'P64b': (64, [('a', 'u32'), ('b', 'u8')]),
 'P64c': (64, [('a', 'u16'), ('b', 'u8'), ('c', 'u32')]),
 'P128a': (128, [('a', 'u8'), ('b', 'u64')]),
 'P128b': (128, [('a', 'u64'), ('b', 'u16')]),
}
PRELUDE = '''#![allow(unused, static_mut_refs)]
use atomic_maybe_uninit::{AtomicMaybeUninit as A, raw::{AtomicLoad, AtomicStore, AtomicSwap, AtomicCompareExchange}};
use core::{cell::UnsafeCell, hint::black_box, mem::{transmute, MaybeUninit as M}, sync::atomic::Ordering::{self, *}};
pub struct C<T>(UnsafeCell<T>);
unsafe impl<T> Sync for C<T> {}
impl<T> C<T> { #[inline(always)] const fn n(v: T) -> Self { C(UnsafeCell::new(v)) } #[inline(always)] fn g(&self) -> *mut T { self.0.get() } }
pub struct K { pub c: [u64; 8], pub o: [Ordering; 5], pub n: [usize; 4] }
''' + ''.join(f'#[derive(Clone, Copy)] #[repr(C{", align(%d)" % (b // 8) if True else ""})] pub struct {n} {{ {", ".join(f"{f}: {t}" for f, t in fs)} }}\n' for n, (b, fs) in PARTS.items())

# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, mode, v, partial):
        self.r, self.mode, self.v = rng, mode, v
        self.ptr = 32 if v['target'].startswith('i') else 64
        self.types = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'isize', 'usize'] + (['i64', 'u64'] if v['s64'] else []) + (['i128', 'u128'] if v['s128'] else [])
        self.wide = [t for t in self.types if bits(t, self.ptr) > self.ptr]
        self.cas = v['cas']
        self.floats = 'soft-float' not in v['flags']
        self.partial = partial
    def ty(self):
        return self.r.choice(self.wide) if self.wide and self.r.random() < 0.35 else self.r.choice(self.types)
    def val(self, b):
        x = self.r.random()
        if x < 0.25:
            return self.r.choice([0, 1, (1 << b) - 1, 1 << (b - 1)]) & ((1 << b) - 1)
        if x < 0.35 and b >= 64:
            return self.r.choice([0x7ff0000000000001, 0xfff4000000000000]) | (self.r.getrandbits(b) >> 64 << 64 if b > 64 else 0)
        return self.r.getrandbits(b)
    def prog(self):
        r = self.r
        p = dict(mode=self.mode)
        p['A'] = [dict(ty=(t := self.ty()), init=self.val(bits(t, self.ptr))) for _ in range(r.randint(1, 4))]
        p['S'] = [dict(ty=(t := r.choice(['u8', 'u16', 'u32', 'u64', 'u64', 'u128'])), init=self.val(int(t[1:]))) for _ in range(r.randint(1, 5))]
        nth = 2 if self.mode == 'pp' else 1
        p['LA'] = [[dict(ty=(t := self.ty()), init=self.val(bits(t, self.ptr)), esc=r.random() < 0.5) for _ in range(r.randint(0, 2))] for _ in range(nth)]
        p['nl'] = [r.randint(3, 12) for _ in range(nth)]
        p['nw'] = 2
        p['nf'] = [r.randint(1, 6) if self.floats and r.random() < 0.6 else 0 for _ in range(nth)]
        ok = [n for n, (b, _) in PARTS.items() if any(bits(t, self.ptr) == b for t in self.types)]
        p['P'] = []
        if self.partial:
            for _ in range(r.randint(1, 3)):
                n = r.choice(ok)
                t = r.choice([t for t in self.types if bits(t, self.ptr) == PARTS[n][0]])
                p['P'].append(dict(pt=n, ty=t, init=self.fields(n)))
        p['c'] = [self.val(64) for _ in range(8)]
        p['n'] = [r.randint(0, 5) for _ in range(4)]
        p['static'] = r.random() < 0.5
        self.p = p
        nseg = r.randint(3, 14) if self.mode == 'pp' else 1
        p['flag'] = r.choice([t for t in self.types])
        p['segs'] = []
        self.fcount = {}
        for i in range(nseg):
            self.th = i % nth
            st = [self.stmt() for _ in range(r.randint(1, 7) if self.mode == 'pp' else r.randint(4, 22))]
            p['segs'].append(dict(st=st, acq=self.acq(), rel=self.rel()))
        return p
    def fields(self, n):
        return [self.val(int(t[1:])) for _, t in PARTS[n][1]]
    def acq(self):
        ks = ['load', 'load', 'relspin', 'relswap', 'poll', 'poll'] + (['casfail', 'caswin', 'fu'] if self.cas else []) + (['std'] if self.p['flag'][1:] != '128' else [])
        return dict(k=self.r.choice(ks), d=self.l(), j=[self.r.randrange(len(self.p['S'])) for _ in range(self.r.randint(1, 2))], n=self.r.randint(1, 3), o=self.r.choice([2, 4]), x=self.r.choice([2, 3, 4]), raw=self.r.random() < 0.3, rt=self.r.random() < 0.2)
    def rel(self):
        ks = ['store', 'store', 'swap'] + (['cas', 'fu'] if self.cas else []) + (['std', 'std'] if self.p['flag'][1:] != '128' else [])
        return dict(k=self.r.choice(ks), o=self.r.choice([1, 4]), x=self.r.choice([1, 3, 4]), f=self.r.choice(OLOAD), raw=self.r.random() < 0.3, rt=self.r.random() < 0.2)
    def expr(self, d=0):
        r, p = self.r, self.p
        x = r.random()
        if d > 2 or x < 0.5:
            return r.choice([['c', self.val(64)], ['l', r.randrange(p['nl'][self.th])], ['l', r.randrange(p['nl'][self.th])], ['s', r.randrange(len(p['S']))], ['s', r.randrange(len(p['S']))], ['w', r.randrange(p['nw'])], ['k', r.randrange(8)]])
        if x < 0.9:
            return [r.choice(['add', 'xor', 'sub', 'mul', 'and']), self.expr(d + 1), self.expr(d + 1)]
        return [r.choice(['rotl', 'shr']), self.expr(d + 1), r.randrange(1, 63)]
    def tgt(self):
        n = len(self.p['LA'][self.th])
        if n and self.r.random() < 0.45:
            return ['LA', self.r.randrange(n)]
        return ['A', self.r.randrange(len(self.p['A']))]
    def l(self):
        return self.r.randrange(self.p['nl'][self.th])
    def dst(self):
        return [self.l(), self.r.randrange(self.p['nw'])]
    def atom(self):
        r = self.r
        k = r.choice(['load', 'load', 'load', 'store', 'store', 'store', 'swap', 'swap', 'cas', 'cas', 'cas', 'fu', 'fu', 'same', 'addr'] if self.cas else ['load', 'load', 'store', 'store', 'swap', 'swap', 'addr'])
        t, raw, rt = self.tgt(), r.random() < 0.25, r.random() < 0.2
        if k == 'same':     # one value as the expected and the new value
            e = ['cur'] if r.random() < 0.6 else ['e', self.expr(), self.expr()]
            return ['same', t, raw, r.random() < 0.3, r.choice(OANY), r.choice(OLOAD), rt, e, self.dst(), self.l()]
        if k == 'addr':     # the address of the cell as the value
            return ['addr', t, raw, r.choice(['store', 'swap', 'cas', 'casfail'] if self.cas else ['store', 'swap']), r.choice(OANY), r.choice(OLOAD), rt, self.l()]
        if k == 'load':
            return ['load', t, raw, r.choice(OLOAD), rt, self.dst()]
        if k == 'store':
            return ['store', t, raw, r.choice(OSTORE), rt, self.expr(), self.expr()]
        if k == 'swap':
            return ['swap', t, raw, r.choice(OANY), rt, self.expr(), self.expr(), self.dst()]
        if k == 'cas':
            e = ['cur'] if r.random() < 0.6 else ['e', self.expr(), self.expr()]
            return ['cas', t, raw, r.random() < 0.3, r.choice(OANY), r.choice(OLOAD), rt, e, self.expr(), self.expr(), self.dst(), self.l()]
        return ['fu', t, r.choice(OANY), r.choice(OLOAD), rt, r.choice(['add', 'xor', 'none', 'cap']), self.val(64), self.dst(), self.l()]
    def stmt(self, d=0):
        r, p = self.r, self.p
        ks = ['let', 'setS', 'setS', 'atom', 'atom', 'atom', 'atom', 'pget', 'pset', 'flag', 'flag', 'press', 'setW']
        if p['nf'][self.th]:
            ks += ['flt', 'flt']
        if p['P']:
            ks += ['part'] * 8
        if d == 0:
            ks += ['loop']
        k = r.choice(ks)
        if k == 'let':
            return ['let', self.l(), self.expr()]
        if k == 'setS':
            return ['setS', r.randrange(len(p['S'])), self.expr(), self.expr()]
        if k == 'setW':
            return ['setW', r.randrange(p['nw']), self.expr(), self.expr()]
        if k == 'atom':
            return self.atom()
        if k == 'pget':
            return ['pget', self.tgt(), self.dst()]
        if k == 'pset':
            return ['pset', self.tgt(), self.expr(), self.expr()]
        if k == 'flag':
            return ['flag', self.l(), r.choice(['addc', 'subb', 'lt', 'eq', 'sign', 'zero']), self.expr(), self.expr(), [self.atom() for _ in range(r.randint(1, 2))]]
        if k == 'press':
            return ['press', [self.expr(1) for _ in range(r.randint(4, 18))], self.atom(), self.l()]
        if k == 'flt':
            i = r.randrange(p['nf'][self.th])
            c = self.fcount.get((self.th, i), 0)
            self.fcount[(self.th, i)] = c + 1
            j = r.randrange(p['nf'][self.th])
            return ['flt', i, c < 8, self.expr(1), self.atom() if r.random() < 0.8 else None]
        if k == 'loop':
            sp = [self.stmt(1) for _ in range(r.randint(1, 3))]
            # keeps the floats exact
            sp = [s for s in sp if s[0] != 'flt'] or [self.atom()]
            return ['loop', r.randrange(4), self.l(), sp]
        if k == 'part':
            j = r.randrange(len(p['P']))
            pt = p['P'][j]['pt']
            op = r.choice(['load', 'load', 'store', 'store', 'swap', 'pset', 'pget', 'new'] + (['casl', 'fu'] if self.cas else []))
            return ['part', j, op, r.random() < 0.25, r.choice(OANY), self.expr(1), self.l(), r.random() < 0.3]
        raise AssertionError(k)

# ---------------------------------------------------------------- model
class Model:
    def __init__(self, p, ptr):
        self.p, self.ptr = p, ptr
        self.S = [s['init'] for s in p['S']]
        self.A = [a['init'] for a in p['A']]
        self.LA = [[a['init'] for a in la] for la in p['LA']]
        self.L = [[p['c'][i % 8] ^ i for i in range(n)] for n in p['nl']]
        self.W = [[p['c'][0] << 64 | p['c'][i] for i in range(p['nw'])] for _ in p['nl']]
        self.F = [[float(i + 1) for i in range(n)] for n in p['nf']]
        self.P = [list(x['init']) for x in p['P']]
    def run(self):
        for i, s in enumerate(self.p['segs']):
            t = self.t = i % len(self.p['nl'])
            q = s['acq']
            if self.p['mode'] == 'pp' and q['k'] == 'poll':
                for _ in range(q['n']):
                    for j in q['j']: self.L[t][q['d']] = (self.L[t][q['d']] * 31 + (self.S[j] & M64)) & M64
            for st in s['st']:
                self.ex(st)
        out = []
        for t in range(len(self.p['nl'])):
            out += self.L[t] + self.W[t] + [int(f) & M64 for f in self.F[t]] + self.LA[t]
        return out + self.S + self.A + [x for q in self.P for x in q]
    def e(self, x):
        k = x[0]
        t = self.t
        if k == 'c': return x[1]
        if k == 'l': return self.L[t][x[1]]
        if k == 's': return self.S[x[1]] & M64
        if k == 'w': return self.W[t][x[1]] & M64
        if k == 'k': return self.p['c'][x[1]]
        a = self.e(x[1])
        if k == 'rotl': return (a << x[2] | a >> (64 - x[2])) & M64
        if k == 'shr': return a >> x[2]
        b = self.e(x[2])
        return {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'mul': a * b, 'and': a & b}[k] & M64
    def tb(self, tg):
        d = self.p['A'][tg[1]] if tg[0] == 'A' else self.p['LA'][self.t][tg[1]]
        return bits(d['ty'], self.ptr)
    def get(self, tg):
        return self.A[tg[1]] if tg[0] == 'A' else self.LA[self.t][tg[1]]
    def set(self, tg, v):
        if tg[0] == 'A': self.A[tg[1]] = v
        else: self.LA[self.t][tg[1]] = v
    def tv(self, b, e1, e2):
        v = self.e(e1)
        if b == 128:
            v = v << 64 | self.e(e2)
        return v & ((1 << b) - 1)
    def put(self, b, dst, v):
        if b == 128: self.W[self.t][dst[1]] = v
        else: self.L[self.t][dst[0]] = v
    def ex(self, s):
        k, t = s[0], self.t
        if k == 'let': self.L[t][s[1]] = self.e(s[2])
        elif k == 'setS': self.S[s[1]] = self.tv(int(self.p['S'][s[1]]['ty'][1:]), s[2], s[3])
        elif k == 'setW': self.W[t][s[1]] = self.tv(128, s[2], s[3])
        elif k in ('load',): self.put(self.tb(s[1]), s[5], self.get(s[1]))
        elif k == 'store': self.set(s[1], self.tv(self.tb(s[1]), s[5], s[6]))
        elif k == 'swap':
            b = self.tb(s[1]); o = self.get(s[1]); n = self.tv(b, s[5], s[6])
            self.set(s[1], n); self.put(b, s[7], o)
        elif k == 'cas':
            b = self.tb(s[1]); o = self.get(s[1])
            x = o if s[7][0] == 'cur' else self.tv(b, s[7][1], s[7][2])
            n = self.tv(b, s[8], s[9])
            if x == o: self.set(s[1], n)
            self.put(b, s[10], o)
            self.L[t][s[11]] = int(x == o)
        elif k == 'same':
            b = self.tb(s[1]); o = self.get(s[1])
            x = o if s[7][0] == 'cur' else self.tv(b, s[7][1], s[7][2])
            self.put(b, s[8], o)
            self.L[t][s[9]] = int(x == o)
        elif k == 'addr':
            self.L[t][s[7]] = 3
        elif k == 'fu':
            b = self.tb(s[1]); o = self.get(s[1]); m = (1 << b) - 1
            c = s[6] & m
            n = {'add': (o + c) & m, 'xor': o ^ c, 'none': None, 'cap': None if o > c else (o + 1) & m}[s[5]]
            if n is not None: self.set(s[1], n)
            self.put(b, s[7], o)
            self.L[t][s[8]] = int(n is not None)
        elif k == 'pget': self.put(self.tb(s[1]), s[2], self.get(s[1]))
        elif k == 'pset': self.set(s[1], self.tv(self.tb(s[1]), s[2], s[3]))
        elif k == 'flag':
            a, b = self.e(s[3]), self.e(s[4])
            r, c = {'addc': ((a + b) & M64, a + b > M64), 'subb': ((a - b) & M64, a < b), 'lt': (a, a < b), 'eq': (a, a == b), 'sign': (a, a >> 63 == 1), 'zero': ((a - b) & M64, a == b)}[s[2]]
            for x in s[5]: self.ex(x)
            self.L[t][s[1]] = (r ^ 0x55) if c else ((r << 3 | r >> 61) & M64)
        elif k == 'press':
            v = [self.e(x) for x in s[1]]
            self.ex(s[2])
            h = 0
            for x in v: h = ((h * 31) ^ x) & M64
            self.L[t][s[3]] = h
        elif k == 'flt':
            q = self.F[t][s[1]] * (3.0 if s[2] else 1.0)
            x = self.e(s[3]) & 0xffff
            if s[4]: self.ex(s[4])
            self.F[t][s[1]] = q + float(x)
        elif k == 'loop':
            for i in range(self.p['n'][s[1]]):
                self.L[t][s[2]] ^= i
                for x in s[3]: self.ex(x)
        elif k == 'part':
            j, op = s[1], s[2]
            fs = PARTS[self.p['P'][j]['pt']][1]
            x = self.e(s[5])
            new = [(x >> (8 * i)) & ((1 << int(ft[1:])) - 1) for i, (_, ft) in enumerate(fs)]
            old = self.P[j]
            if op in ('store', 'swap', 'pset', 'casl', 'fu', 'new'): self.P[j] = new
            if op in ('load', 'swap', 'pget', 'casl', 'fu', 'new'):
                h = 0
                for y in (new if op == 'new' else old): h = ((h * 1000003) ^ y) & M64
                self.L[t][s[6]] = h
        else: raise AssertionError(k)

# ---------------------------------------------------------------- Rust
class Emit:
    def __init__(self, p, ptr, name):
        self.p, self.ptr, self.n = p, ptr, name
        self.u = 0
    def fresh(self):
        self.u += 1
        return f'v{self.u}'
    def e(self, x):
        k = x[0]
        if k == 'c': return f'{x[1]:#x}u64'
        if k == 'l': return f'l{x[1]}'
        if k == 's': return f'(*sh.s{x[1]}.g() as u64)'
        if k == 'w': return f'(w{x[1]} as u64)'
        if k == 'k': return f'k.c[{x[1]}]'
        a = self.e(x[1])
        if k == 'rotl': return f'({a}).rotate_left({x[2]})'
        if k == 'shr': return f'(({a}) >> {x[2]})'
        b = self.e(x[2])
        f = {'add': 'wrapping_add', 'sub': 'wrapping_sub', 'mul': 'wrapping_mul'}
        return f'({a}).{f[k]}({b})' if k in f else f'(({a}) {dict(xor="^", **{"and": "&"})[k]} ({b}))'
    def tv(self, ty, e1, e2):
        b = bits(ty, self.ptr)
        if b == 128:
            return f'((({self.e(e1)} as u128) << 64 | {self.e(e2)} as u128) as {ty})'
        return f'({self.e(e1)} as {uty(ty)} as {ty})'
    def t(self, tg):
        d = self.p['A'][tg[1]] if tg[0] == 'A' else self.p['LA'][self.th][tg[1]]
        return d['ty'], (f'sh.a{tg[1]}' if tg[0] == 'A' else f'la{tg[1]}')
    def o(self, o, rt):
        return f'k.o[{o}]' if rt else ORD[o]
    def dst(self, ty, dst, v):
        if bits(ty, self.ptr) == 128: return f'w{dst[1]} = {v} as u128;'
        return f'l{dst[0]} = {v} as {uty(ty)} as u64;'
    def st(self, s):
        k = s[0]
        E = self.e
        if k == 'let': return f'l{s[1]} = {E(s[2])};'
        if k == 'setS':
            return f'*sh.s{s[1]}.g() = {self.tv(self.p["S"][s[1]]["ty"], s[2], s[3])};'
        if k == 'setW': return f'w{s[1]} = {self.tv("u128", s[2], s[3])};'
        if k in ('load', 'store', 'swap', 'cas', 'same', 'addr', 'fu', 'pget', 'pset'):
            ty, a = self.t(s[1])
        v = self.fresh()
        if k == 'load':
            c = f'{ty}::atomic_load({a}.as_ptr(), {self.o(s[3], s[4])})' if s[2] else f'{a}.load({self.o(s[3], s[4])})'
            return f'let {v} = {c}.assume_init(); ' + self.dst(ty, s[5], v)
        if k == 'store':
            x = f'M::new({self.tv(ty, s[5], s[6])})'
            return f'{ty}::atomic_store({a}.as_ptr(), {x}, {self.o(s[3], s[4])});' if s[2] else f'{a}.store({x}, {self.o(s[3], s[4])});'
        if k == 'swap':
            x = f'M::new({self.tv(ty, s[5], s[6])})'
            c = f'{ty}::atomic_swap({a}.as_ptr(), {x}, {self.o(s[3], s[4])})' if s[2] else f'{a}.swap({x}, {self.o(s[3], s[4])})'
            return f'let {v} = {c}.assume_init(); ' + self.dst(ty, s[7], v)
        if k == 'same':
            x = f'{a}.load(Relaxed).assume_init()' if s[7][0] == 'cur' else self.tv(ty, s[7][1], s[7][2])
            so, fo = self.o(s[4], s[6]), self.o(s[5], s[6])
            w = '_weak' if s[3] else ''
            call = f'{ty}::atomic_compare_exchange{w}({a}.as_ptr(), {v}x, {v}x, {so}, {fo})' if s[2] else f'{{ match {a}.compare_exchange{w}({v}x, {v}x, {so}, {fo}) {{ Ok(v) => (v, true), Err(v) => (v, false) }} }}'
            loop = f'loop {{ let r = {call}; let r = (r.0.assume_init(), r.1); if r.1 || r.0 != {v}x.assume_init() {{ break r }} }}' if s[3] else f'{{ let r = {call}; (r.0.assume_init(), r.1) }}'
            return f'let {v}x = M::new({x}); let {v} = {loop}; {self.dst(ty, s[8], v + ".0")} l{s[9]} = {v}.1 as u64;'
        if k == 'addr':
            o, f, raw = self.o(s[4], s[6]), self.o(s[5], s[6]), s[2]
            os_ = self.o(s[4] if s[4] in OSTORE else 1, s[6])
            put = lambda x: f'{ty}::atomic_store({a}.as_ptr(), {x}, {os_});' if raw else f'{a}.store({x}, {os_});'
            pre = f'let {v}o = {a}.load(Relaxed); let {v} = M::new({a}.as_ptr() as usize as {ty});'
            # bit 0: the result is right, bit 1: the cell then holds the address
            fin = f'let {v}g = {a}.load(Relaxed).assume_init() == {a}.as_ptr() as usize as {ty}; {a}.store({v}o, Relaxed); l{s[7]} = {v}r as u64 | ({v}g as u64) << 1;'
            if s[3] == 'store': return f'{pre} {put(v)} let {v}r = true; {fin}'
            if s[3] == 'swap':
                c = f'{ty}::atomic_swap({a}.as_ptr(), {v}, {o})' if raw else f'{a}.swap({v}, {o})'
                return f'{pre} let {v}r = {c}.assume_init() == {v}o.assume_init(); {fin}'
            call = lambda n: f'{ty}::atomic_compare_exchange({a}.as_ptr(), {v}, {n}, {o}, {f}).1' if raw else f'{a}.compare_exchange({v}, {n}, {o}, {f}).is_ok()'
            if s[3] == 'cas': return f'{pre} {put(v)} let {v}r = {call(v)}; {fin}'
            return f'{pre} {a}.store(M::new(!{v}.assume_init()), Relaxed); let {v}r = !{call(v)}; {a}.store({v}, Relaxed); {fin}'
        if k == 'cas':
            x = f'{a}.load(Relaxed).assume_init()' if s[7][0] == 'cur' else self.tv(ty, s[7][1], s[7][2])
            so, fo = self.o(s[4], s[6]), self.o(s[5], s[6])
            call = f'{ty}::atomic_compare_exchange{"_weak" if s[3] else ""}({a}.as_ptr(), M::new({v}x), M::new({v}n), {so}, {fo})' if s[2] else \
                   f'{{ match {a}.compare_exchange{"_weak" if s[3] else ""}(M::new({v}x), M::new({v}n), {so}, {fo}) {{ Ok(v) => (v, true), Err(v) => (v, false) }} }}'
            loop = f'let {v} = loop {{ let r = {call}; let r = (r.0.assume_init(), r.1); if r.1 || r.0 != {v}x {{ break r }} }};' if s[3] else f'let {v} = {call}; let {v} = ({v}.0.assume_init(), {v}.1);'
            return f'let {v}x: {ty} = {x}; let {v}n = {self.tv(ty, s[8], s[9])}; {loop} {self.dst(ty, s[10], v + ".0")} l{s[11]} = {v}.1 as u64;'
        if k == 'fu':
            b = bits(ty, self.ptr); c = s[6] & ((1 << b) - 1)
            u = uty(ty)
            body = {'add': f'Some(M::new(x.wrapping_add({c:#x}{u}) as {ty}))', 'xor': f'Some(M::new((x ^ {c:#x}{u}) as {ty}))', 'none': 'None', 'cap': f'if x > {c:#x}{u} {{ None }} else {{ Some(M::new(x.wrapping_add(1) as {ty})) }}'}[s[5]]
            return f'let {v} = match {a}.fetch_update({self.o(s[2], s[4])}, {self.o(s[3], s[4])}, |x| {{ let x = x.assume_init() as {u}; {body} }}) {{ Ok(v) => (v.assume_init(), true), Err(v) => (v.assume_init(), false) }}; {self.dst(ty, s[7], v + ".0")} l{s[8]} = {v}.1 as u64;'
        if k == 'pget':
            c = f'(*{a}.as_ptr())' if s[1][0] == 'A' else f'(*{a}.get_mut())'
            return f'let {v} = {c}.assume_init(); ' + self.dst(ty, s[2], v)
        if k == 'pset':
            x = f'M::new({self.tv(ty, s[2], s[3])})'
            return (f'let {v} = {x}; *{a}.as_ptr() = {v};' if s[1][0] == 'A' else f'let {v} = {x}; *{a}.get_mut() = {v};')
        if k == 'flag':
            pre = {'addc': f'let ({v}, {v}c) = {v}a.overflowing_add({v}b);', 'subb': f'let ({v}, {v}c) = {v}a.overflowing_sub({v}b);', 'lt': f'let ({v}, {v}c) = ({v}a, {v}a < {v}b);', 'eq': f'let ({v}, {v}c) = ({v}a, {v}a == {v}b);', 'sign': f'let ({v}, {v}c) = ({v}a, ({v}a as i64) < 0);', 'zero': f'let {v} = {v}a.wrapping_sub({v}b); let {v}c = {v} == 0;'}[s[2]]
            return f'let {v}a = {E(s[3])}; let {v}b = {E(s[4])}; {pre} {" ".join(self.st(x) for x in s[5])} l{s[1]} = if {v}c {{ {v} ^ 0x55 }} else {{ {v}.rotate_left(3) }};'
        if k == 'press':
            a = ' '.join(f'let {v}_{i} = {E(x)};' for i, x in enumerate(s[1]))
            h = '0u64'
            for i in range(len(s[1])): h = f'({h}.wrapping_mul(31) ^ {v}_{i})'
            return f'{a} {self.st(s[2])} l{s[3]} = {h};'
        if k == 'flt':
            return f'let {v} = f{s[1]} * {"3.0" if s[2] else "1.0"}; let {v}x = ({E(s[3])} & 0xffff) as f64; {self.st(s[4]) if s[4] else ""} f{s[1]} = {v} + {v}x;'
        if k == 'loop':
            return f'for {v} in 0..k.n[{s[1]}] {{ l{s[2]} ^= {v} as u64; {" ".join(self.st(x) for x in s[3])} }}'
        if k == 'part':
            j, op, raw, o, rt = s[1], s[2], s[3], s[4], s[7]
            d = self.p['P'][j]; pt = d['pt']; ty = d['ty']; fs = PARTS[pt][1]
            a = f'sh.p{j}'
            new = f'transmute::<{pt}, M<{ty}>>({pt} {{ ' + ', '.join(f'{f}: ({v}e >> {8 * i}) as {ft}' for i, (f, ft) in enumerate(fs)) + ' })'
            h = '0u64'
            for f, _ in fs: h = f'({h}.wrapping_mul(1000003) ^ {v}p.{f} as u64)'
            fin = f'let {v}p = transmute::<M<{ty}>, {pt}>({v}o); l{s[6]} = {h};'
            ol, os_ = self.o(o if o in OLOAD else 2, rt), self.o(o if o in OSTORE else 1, rt)
            pre = f'let {v}e = {E(s[5])};'
            oo = self.o(o, rt)
            if op == 'load': return f'let {v}o = ' + (f'{ty}::atomic_load({a}.as_ptr(), {ol})' if raw else f'{a}.load({ol})') + f'; {fin}'
            if op == 'pget': return f'let {v}o = *{a}.as_ptr(); {fin}'
            if op == 'store': return pre + (f'{ty}::atomic_store({a}.as_ptr(), {new}, {os_});' if raw else f'{a}.store({new}, {os_});')
            if op == 'pset': return pre + f'*{a}.as_ptr() = {new};'
            if op == 'swap': return pre + f'let {v}o = ' + (f'{ty}::atomic_swap({a}.as_ptr(), {new}, {oo})' if raw else f'{a}.swap({new}, {oo})') + f'; {fin}'
            if op == 'casl': return pre + f'let {v}o = loop {{ let c = {a}.load(Relaxed); if let Ok(x) = {a}.compare_exchange(c, {new}, {oo}, {ol}) {{ break x }} }}; {fin}'
            if op == 'fu': return pre + f'let {v}o = {a}.fetch_update({oo}, {ol}, |_| Some({new})).unwrap_unchecked(); {fin}'
            if op == 'new': return pre + f'let {v}l = A::<{ty}>::{"from" if raw else "new"}({new}); {a}.store({v}l.load({ol}), {os_}); let {v}o = {v}l.into_inner(); {fin}'
        raise AssertionError(k)
    def flagv(self, i, w=False):
        ty = self.p['flag']
        return f'({i + 1 + (100 if w else 0)} as {uty(ty)} as {ty})'
    def acqc(self, q, i):
        ty = self.p['flag']; v = self.flagv(i); o = self.o(q['o'], q['rt']); x = self.o(q['x'], q['rt'])
        ld = (lambda o: f'{ty}::atomic_load(sh.flag.as_ptr(), {o})') if q['raw'] else (lambda o: f'sh.flag.load({o})')
        k = q['k']
        if k == 'load': return f'while {ld(o)}.assume_init() != {v} {{}}'
        if k == 'std':
            return f'while core::sync::atomic::Atomic{ty[0].upper() + ty[1:]}::from_ptr(sh.flag.as_ptr().cast()).load({o}) != {v} {{}}'
        if k == 'poll':
            # waits and then consumes several times in the same loop
            c = self.fresh()
            rd = ' '.join(f'l{q["d"]} = l{q["d"]}.wrapping_mul(31).wrapping_add(*sh.s{j}.g() as u64);' for j in q['j'])
            return f'let mut {c} = 0; while {c} < {q["n"]} {{ if {ld(o)}.assume_init() == {v} {{ {rd} {c} += 1; }} }}'
        if k == 'relspin': return f'while {ld("Relaxed")}.assume_init() != {v} {{}} let _ = {ld(o)};'
        if k == 'relswap': return f'while {ld("Relaxed")}.assume_init() != {v} {{}} let _ = sh.flag.swap(M::new({v}), {x});'
        if k == 'casfail': return f'while sh.flag.compare_exchange(M::new(0x7e), M::new(0x7d), Relaxed, {o}).unwrap_err_unchecked().assume_init() != {v} {{}}'
        if k == 'caswin': return f'while sh.flag.compare_exchange(M::new({v}), M::new({self.flagv(i, True)}), {x}, {self.o(q["o"] if q["x"] == 4 else 0, q["rt"])}).is_err() {{}}'
        if k == 'fu': return f'while sh.flag.fetch_update(Relaxed, {o}, |_| None).unwrap_err_unchecked().assume_init() != {v} {{}}'
    def relc(self, q, i, won):
        ty = self.p['flag']; v = f'M::new({self.flagv(i + 1)})'; o = self.o(q['o'], q['rt']); x = self.o(q['x'], q['rt'])
        k = q['k']
        if k == 'store': return f'{ty}::atomic_store(sh.flag.as_ptr(), {v}, {o});' if q['raw'] else f'sh.flag.store({v}, {o});'
        if k == 'std': return f'core::sync::atomic::Atomic{ty[0].upper() + ty[1:]}::from_ptr(sh.flag.as_ptr().cast()).store({self.flagv(i + 1)}, {o});'
        if k == 'swap': return f'let _ = {ty}::atomic_swap(sh.flag.as_ptr(), {v}, {x});' if q['raw'] else f'let _ = sh.flag.swap({v}, {x});'
        if k == 'cas': return f'let _ = sh.flag.compare_exchange(M::new({self.flagv(i, won)}), {v}, {x}, {ORD[q["f"]]});'
        if k == 'fu': return f'let _ = sh.flag.fetch_update({x}, {ORD[q["f"]]}, |_| Some({v}));'
    def emit(self):
        p, n = self.p, self.n
        nth = len(p['nl'])
        o = [f'pub mod {n} {{ use super::*;']
        o.append('pub struct Sh { flag: A<%s>, %s }' % (p['flag'], ', '.join([f's{i}: C<{s["ty"]}>' for i, s in enumerate(p['S'])] + [f'a{i}: A<{a["ty"]}>' for i, a in enumerate(p['A'])] + [f'p{i}: A<{x["ty"]}>' for i, x in enumerate(p['P'])])))
        o.append('unsafe impl Sync for Sh {}')
        lit = lambda ty, v: f'({v:#x}{uty(ty)} as {ty})'
        pi = lambda x: f'unsafe {{ transmute::<{x["pt"]}, M<{x["ty"]}>>({x["pt"]} {{ ' + ', '.join(f'{f}: {v:#x}' for (f, _), v in zip(PARTS[x['pt']][1], x['init'])) + ' }) }'
        init = 'Sh { flag: A::<%s>::const_new(M::new(1)), %s }' % (p['flag'], ', '.join([f's{i}: C::n({s["init"]:#x})' for i, s in enumerate(p['S'])] + [f'a{i}: A::<{a["ty"]}>::const_new(M::new({lit(a["ty"], a["init"])}))' for i, a in enumerate(p['A'])] + [f'p{i}: A::<{x["ty"]}>::const_new({pi(x)})' for i, x in enumerate(p['P'])]))
        if p['static']:
            o.append(f'static SH: Sh = {init};')
        for t in range(nth):
            self.th = t
            o.append(f'#[inline(never)] pub unsafe fn t{t}({"" if p["static"] else "sh: &Sh, "}k: &K, out: &mut Vec<u128>) {{')
            if p['static']: o.append('let sh = &SH;')
            for i in range(p['nl'][t]): o.append(f'let mut l{i}: u64 = k.c[{i % 8}] ^ {i};')
            for i in range(p['nw']): o.append(f'let mut w{i}: u128 = (k.c[0] as u128) << 64 | k.c[{i}] as u128;')
            for i in range(p['nf'][t]): o.append(f'let mut f{i}: f64 = {i + 1}.0;')
            for i, a in enumerate(p['LA'][t]):
                o.append(f'let mut la{i} = A::<{a["ty"]}>::new(M::new({lit(a["ty"], a["init"])}));')
                if a['esc']: o.append(f'black_box(&la{i});')
            for i, s in enumerate(p['segs']):
                if i % nth != t: continue
                if p['mode'] == 'pp': o.append(self.acqc(s['acq'], i))
                for x in s['st']: o.append('  ' + self.st(x))
                if p['mode'] == 'pp': o.append(self.relc(s['rel'], i, s['acq']['k'] == 'caswin'))
            o.append('out.extend_from_slice(&[%s]);' % ', '.join([f'l{i} as u128' for i in range(p['nl'][t])] + [f'w{i}' for i in range(p['nw'])] + [f'f{i} as u64 as u128' for i in range(p['nf'][t])]))
            for i, a in enumerate(p['LA'][t]): o.append(f'out.push(la{i}.into_inner().assume_init() as {uty(a["ty"])} as u128);')
            o.append('}')
        o.append('pub fn run(out: &mut Vec<u128>) { unsafe {')
        kk = 'K { c: [%s], o: [Relaxed, Release, Acquire, AcqRel, SeqCst], n: [%s] }' % (', '.join(f'{x:#x}' for x in p['c']), ', '.join(map(str, p['n'])))
        o.append(f'let k = black_box({kk}); let k = &k;')
        if p['static']: o.append('let sh = &SH;')
        else: o.append(f'let shv = {init}; let sh = &shv;')
        a = '' if p['static'] else 'sh, '
        if nth == 2:
            o.append(f'let mut o1 = vec![]; std::thread::scope(|s| {{ let h = s.spawn(move || {{ let mut o = vec![]; t1({a}k, &mut o); o }}); t0({a}k, out); o1 = h.join().unwrap(); }}); out.extend(o1);')
        else:
            o.append(f't0({a}k, out);')
        for i, s in enumerate(p['S']): o.append(f'out.push(*sh.s{i}.g() as u128);')
        for i, x in enumerate(p['A']): o.append(f'out.push((*sh.a{i}.as_ptr()).assume_init() as {uty(x["ty"])} as u128);')
        for i, x in enumerate(p['P']):
            o.append(f'let q = transmute::<M<{x["ty"]}>, {x["pt"]}>(*sh.p{i}.as_ptr()); out.extend_from_slice(&[{", ".join(f"q.{f} as u128" for f, _ in PARTS[x["pt"]][1])}]);')
        o.append('} } }')
        return '\n'.join(o)

def names(p):
    o = []
    for t in range(len(p['nl'])):
        o += [f'thread {t} local l{i}' for i in range(p['nl'][t])] + [f'thread {t} local w{i}' for i in range(p['nw'])] + [f'thread {t} float f{i}' for i in range(p['nf'][t])] + [f'thread {t} local atomic la{i}' for i in range(len(p['LA'][t]))]
    return o + [f'shared s{i}' for i in range(len(p['S']))] + [f'atomic a{i}' for i in range(len(p['A']))] + [f'partial atomic p{i}.{f}' for i, x in enumerate(p['P']) for f, _ in PARTS[x['pt']][1]]

# ---------------------------------------------------------------- build and run
OPTS = ['3', '2', '1', 's', '0']
def compile_batch(progs, vname, opt, tag):
    v = VARIANTS[vname + '-rel']
    ptr = 32 if v['target'].startswith('i') else 64
    d = f'{TARGET}/gen/{tag}'
    os.makedirs(d + '/src', exist_ok=True)
    shutil.copy(f'{ROOT}/gen/Cargo.toml', d + '/Cargo.toml')
    src = [PRELUDE]
    for i, p in enumerate(progs):
        src.append(Emit(p, ptr, f'p{i}').emit())
    src.append('fn main() { let f: &[fn(&mut Vec<u128>)] = &[%s]; for a in std::env::args().skip(1) { let i: usize = a.parse().unwrap(); println!("start {i}"); let mut o = vec![]; f[i](&mut o); println!("done {i} {}", o.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")); } }' % ', '.join(f'p{i}::run' for i in range(len(progs))))
    with open(d + '/src/main.rs', 'w') as f:
        f.write('\n'.join(src))
    env = {'CARGO_TARGET_DIR': d + '/t', 'RUSTFLAGS': v['flags'] + ' -Awarnings', 'CARGO_PROFILE_RELEASE_OPT_LEVEL': opt}
    rc, out, err = run(['cargo', 'build', '--offline', '-q', '--release', '--target', v['target'], '--manifest-path', d + '/Cargo.toml'], env=env, timeout=600)
    if rc:
        raise ToolError(f'generated programs for {vname} do not compile: {err[-2500:]}')
    return f'{d}/t/{v["target"]}/release/gen'

def run_progs(exe, ids, timeout):
    """id -> list of values, or a string describing how the process ended"""
    res = {}
    todo = list(ids)
    while todo:
        rc, out, err = run([exe] + [str(i) for i in todo], timeout=timeout)
        cur = None
        for l in out.splitlines():
            w = l.split()
            if w[0] == 'start':
                cur = int(w[1])
            elif w[0] == 'done':
                res[int(w[1])] = [int(x, 16) for x in w[2:]]
                cur = None
        if rc == 0:
            return res
        if rc == -1000:
            # find the one that does not finish
            bad = None
            for i in todo:
                if i in res: continue
                rc2, out2, _ = run([exe, str(i)], timeout=15)
                if rc2 == 0:
                    res[i] = [int(x, 16) for x in out2.splitlines()[-1].split()[2:]]
                elif rc2 == -1000:
                    res[i] = 'hang'
                else:
                    res[i] = f'ended with status {rc2}'
            return res
        if cur is None:
            raise ToolError(f'generated program ended with {rc}: {err[-500:]}')
        res[cur] = f'ended with status {rc}: {err.strip()[-300:]}'
        todo = todo[todo.index(cur) + 1:]
    return res

def verdict(p, ptr, got):
    want = Model(p, ptr).run()
    if isinstance(got, str):
        return got
    if got == want:
        return None
    nm = names(p)
    return '; '.join(f'{n} is {g:#x}, expected {w:#x}' for n, g, w in zip(nm, got, want) if g != w)[:600]

def confirm(p, vname, opt, tag):
    """Compiles one program by itself and runs it twice; hangs get a long time limit."""
    ptr = 32 if VARIANTS[vname + '-rel']['target'].startswith('i') else 64
    exe = compile_batch([p], vname, opt, tag)
    m = None
    for _ in range(2):
        got = run_progs(exe, [0], 60).get(0)
        m = verdict(p, ptr, got)
        if m is None:
            return None
        if m == 'hang':
            m = 'does not terminate (60 s; it takes milliseconds when every wait sees the flag)'
    return m

def subs(p):
    """Smaller programs."""
    c = []
    def cp(): return json.loads(json.dumps(p))
    segs = p['segs']
    nth = len(p['nl'])
    if nth == 2 and len(segs) > 1:
        for k in sorted({2, len(segs) // 2 & ~1}):
            if k >= 2 and k < len(segs):
                q = cp(); q['segs'] = q['segs'][:-k]; c.append(q)
                q = cp(); q['segs'] = q['segs'][k:]; c.append(q)
    for i, s in enumerate(segs):
        n = len(s['st'])
        if n > 1:
            for a, b in ((0, n // 2), (n // 2, n)):
                q = cp(); del q['segs'][i]['st'][a:b]; c.append(q)
        for j in range(n):
            q = cp(); del q['segs'][i]['st'][j]; c.append(q)
            x = s['st'][j]
            if x[0] == 'loop':
                q = cp(); q['segs'][i]['st'][j:j + 1] = x[3]; c.append(q)
            if x[0] in ('press', 'flt') and x[2 if x[0] == 'press' else 4]:
                q = cp(); q['segs'][i]['st'][j] = x[2 if x[0] == 'press' else 4]; c.append(q)
    return c

def shrink(p, vname, opt, tag, rounds=12):
    ptr = 32 if VARIANTS[vname + '-rel']['target'].startswith('i') else 64
    t0 = time.time()
    for _ in range(rounds):
        c = [q for q in subs(p)][:60]
        if not c or time.time() - t0 > 120:
            break
        c.sort(key=lambda q: len(json.dumps(q)))
        try:
            exe = compile_batch(c, vname, opt, tag)
            res = run_progs(exe, range(len(c)), 30)
        except ToolError:
            break
        ok = [q for i, q in enumerate(c) if verdict(q, ptr, res.get(i, 'no result')) is not None and i in res]
        if not ok:
            break
        p = ok[0]
    return p

def show(p, vname):
    ptr = 32 if VARIANTS[vname + '-rel']['target'].startswith('i') else 64
    return Emit(p, ptr, 'p').emit()

MODES = {'C07': ('pp', 0.15), 'C13': ('st', 0.15), 'C04': ('mix', 1.0)}
def run_gen(prop, tier):
    mode, pp = MODES[prop]
    names_ = list(dict.fromkeys(v.rsplit('-', 1)[0] for v in VARIANTS))
    per = 40
    batches = []
    rng = random.Random(f'{SEED}-gen-{prop}')
    nb = 1 if tier == 'quick' else 20
    for v in names_:
        for b in range(nb):
            for opt in (rng.sample(OPTS[:4], 2) if tier == 'quick' else OPTS):
                batches.append((v, opt, rng.getrandbits(48)))
    results = []
    notes = []
    def go(b):
        vname, opt, seed = b
        v = VARIANTS[vname + '-rel']
        r = random.Random(seed)
        ptr = 32 if v['target'].startswith('i') else 64
        progs = []
        for i in range(per):
            m = mode if mode != 'mix' else r.choice(['st', 'pp'])
            progs.append(Gen(r, m, v, r.random() < pp).prog())
        tag = f'{prop}-{vname}-{opt}-{seed:x}'
        d = f'{TARGET}/gen/{tag}'
        try:
            try:
                exe = compile_batch(progs, vname, opt, tag)
            except ToolError as e:
                if v['base']:
                    raise
                return dict(part='gen', variant=vname, rc=0, res=None, failures=[], note=f'{vname} does not build, not covered')
            res = run_progs(exe, range(len(progs)), 120)
            fails, ev, nt = [], 0, 0
            for i, p in enumerate(progs):
                if i not in res:
                    raise ToolError(f'{tag}: program {i} did not run')
                ev += 1
                txt = json.dumps(p['segs'])
                nt += any(f'"{k}"' in txt for k in ('load', 'store', 'swap', 'cas', 'fu', 'part'))
                m = verdict(p, ptr, res[i])
                if m and not fails:
                    m = confirm(p, vname, opt, tag + 'c')
                    if m:
                        q = shrink(p, vname, opt, tag + 'c')
                        m2 = confirm(q, vname, opt, tag + 'c')
                        if m2: p, m = q, m2
                        fails.append(dict(kind='eng_gen', variant=vname, part='gen', case=dict(prog=p, opt=opt), message=f'{vname} -O{opt}: {m}\n{show(p, vname)}', key=None))
                    elif res[i] != 'hang':
                        # the program has one outcome whatever the timing: seeing another one once is enough
                        fails.append(dict(kind='eng_gen', variant=vname, part='gen', case=dict(prog=p, opt=opt), message=f'{vname} -O{opt}: seen once: {verdict(p, ptr, res[i])}\n{show(p, vname)}', key=None))
            return dict(part='gen_' + mode, variant=vname, rc=0, res=dict(evaluations=ev, distinct_nontrivial=nt, classes={f'opt_{opt}': ev}, samples=[show(progs[0], vname)[:3000]]), failures=fails,
                        rule='one case = one generated program (two threads taking turns through release/acquire operations, or one thread) compiled at an optimisation level with the crate; every final variable compared with an interpreter; non-trivial: contains an atomic operation')
        finally:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(d + 'c', ignore_errors=True)
    stop = [False]
    def go1(b):
        if stop[0]: return None
        r = go(b)
        if r['failures']: stop[0] = True
        return r
    for r in pmap(go1, batches):
        if r is None: continue
        if r.get('note'): notes.append(r['note'])
        if r['res']: results.append(r)
    return results, notes

def replay(rep):
    return confirm(rep['case']['prog'], rep['variant'], rep['case']['opt'], f'replay-{os.getpid()}')

def register(engine):
    engine(*MODES)(run_gen)
