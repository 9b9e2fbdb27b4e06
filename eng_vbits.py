"""C04: generated operation sequences with random definedness masks, run under Memcheck; oracle: a cell with a definedness bit per byte.

Memcheck tracks, for the machine code actually produced, which bits are copies of uninitialised ones and whether a branch or address
depends on one. After every call the driver (vbits/) reports bytes and shadow of the result and of the whole 64-byte line around the
cell, and the number of errors counted during the call."""
import json, os, random, shutil
from vlib import *
import vlib

NAMES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'isize', 'usize', 'i64', 'u64', 'i128', 'u128']
OLOAD, OSTORE, OANY = [0, 2, 4], [0, 1, 4], [0, 1, 2, 3, 4]
KINDS = ['load', 'store', 'swap', 'cas', 'casw', 'fu', 'ctor', 'extract', 'inject', 'debug']

def vb_build(name):
    def go():
        v = VARIANTS[name]
        td = os.path.join(TARGET, 'vbits', name)
        cmd = ['cargo', 'build', '--offline', '-q', '--target', v['target'], '--manifest-path', f'{ROOT}/vbits/Cargo.toml']
        if v['profile'] == 'release':
            cmd.append('--release')
        rc, out, err = run(cmd, env={'CARGO_TARGET_DIR': td, 'RUSTFLAGS': shim_flags(v) + ' -Ctarget-feature=+crt-static -Crelocation-model=static'})
        if rc:
            raise ToolError(f'vbits build {name} failed:\n{err[-3000:]}')
        return f'{td}/{v["target"]}/{v["pdir"]}/vbits'
    return once(('vbits', name), go)

def sizes(v):
    ptr = 8 if v['target'].startswith('x') else 4
    return [1, 1, 2, 2, 4, 4, ptr, ptr, 8, 8, 16, 16], ptr

def usable(v):
    n = 8 + (2 if v['s64'] else 0) + (2 if v['s128'] else 0)
    ids = list(range(n))
    if '-x87' not in v['flags'] and '-sse,' in v['flags']:
        ids = [i for i in ids if i < 8]  # Memcheck computes x87 registers with 64-bit precision: fild/fistp do not copy there
    return ids

# ---- generation
def gmask(r, n):
    x = r.random()
    if x < 0.35: return bytes(n)
    if x < 0.5: return b'\xff' * n
    if x < 0.65:
        k = r.randrange(n)
        return bytes(0xff if i == k else 0 for i in range(n))
    if x < 0.8:
        k = r.randrange(n + 1)
        return bytes(0xff if (i < k) else 0 for i in range(n)) if r.random() < 0.5 else bytes(0 if (i < k) else 0xff for i in range(n))
    return bytes(0xff if r.random() < 0.5 else 0 for _ in range(n))
def gval(r, n):
    x = r.random()
    b = bytes(n) if x < 0.15 else b'\xff' * n if x < 0.25 else bytes([r.randrange(256)]) * n if x < 0.35 else r.randbytes(n)
    return b
def gv(r, n):
    return [gval(r, n).hex(), gmask(r, n).hex()]
def gcase(r, v):
    sz, ptr = sizes(v)
    t = r.choice(usable(v))
    n = sz[t]
    c = dict(ty=t, off=r.randrange(64 // n), line=[r.randbytes(64).hex(), (gmask(r, 64)).hex()], ops=[])
    kinds = ['load', 'store', 'swap', 'ctor', 'extract', 'inject', 'debug'] + (['load', 'store', 'swap', 'cas', 'casw', 'cas', 'fu'] if v['cas'] else [])
    for _ in range(r.randint(1, 7)):
        k = r.choice(kinds)
        op = dict(k=k, fl=r.randrange(6), o=0, e=None, w=gv(r, n), steps=[])
        if k == 'load': op['o'] = r.choice(OLOAD)
        elif k == 'store': op['o'] = r.choice(OSTORE)
        elif k == 'swap': op['o'] = r.choice(OANY)
        elif k in ('cas', 'casw', 'fu'): op['o'] = r.choice(OANY) | r.choice(OLOAD) << 8
        elif k == 'ctor': op['o'] = r.randrange(5)
        elif k == 'extract': op['o'] = r.randrange(5)
        elif k == 'inject': op['o'] = r.randrange(4)
        if k == 'ctor' and op['o'] == 2:
            op['w'][1] = bytes(n).hex()  # From<T> takes an initialised value
        if k in ('cas', 'casw'):
            x = r.random()
            # 'cur': bytes and shadow as in the cell; 'curx': one byte differs; else a literal
            op['e'] = ['cur'] if x < 0.55 else ['curx', r.randrange(n), r.randrange(1, 256)] if x < 0.8 else ['lit'] + gv(r, n)
            if r.random() < 0.15: op['w'] = ['samebytes', gmask(r, n).hex()]
        elif k in ('store', 'swap') and r.random() < 0.25:
            op['w'] = ['samebytes', gmask(r, n).hex()]  # same bytes as the cell (concretely), another definedness
        if k == 'fu':
            for _ in range(r.randint(1, 3)):
                op['steps'].append([gv(r, n) if r.random() < 0.4 else None, gv(r, n) if r.random() < 0.8 else None])
        c['ops'].append(op)
    return c

# ---- encoding; values that depend on the cell are resolved by predicting the concrete bytes, which the machine code also sees
def resolve(c, v):
    """Concrete operand bytes for every op (a straight prediction of what the cell holds)."""
    sz, ptr = sizes(v)
    n = sz[c['ty']]
    off = c['off'] * n
    b = bytearray(bytes.fromhex(c['line'][0])[off:off + n])
    m = bytearray(bytes.fromhex(c['line'][1])[off:off + n])
    out = []
    for op in c['ops']:
        w = bytes(b) if op['w'][0] == 'samebytes' else bytes.fromhex(op['w'][0])
        wm = bytes.fromhex(op['w'][1])
        e = em = None
        if op['e']:
            if op['e'][0] == 'cur': e, em = bytes(b), bytes(m)
            elif op['e'][0] == 'curx':
                x = bytearray(b); x[op['e'][1] % n] ^= op['e'][2]
                e, em = bytes(x), bytes(m)
            else: e, em = bytes.fromhex(op['e'][1]), bytes.fromhex(op['e'][2])
        out.append((e, em, w, wm))
        k = op['k']
        if k in ('store', 'swap', 'ctor', 'inject') or (k in ('cas', 'casw') and e == bytes(b)):
            b[:], m[:] = w, wm
        elif k == 'fu':
            for i, (wr, ret) in enumerate(op['steps'] + [[None, op['steps'][-1][1]]]):
                changed = wr is not None and bytes.fromhex(wr[0]) != bytes(b)
                if wr: b[:], m[:] = bytes.fromhex(wr[0]), bytes.fromhex(wr[1])
                if ret is None: break
                if not changed:
                    b[:], m[:] = bytes.fromhex(ret[0]), bytes.fromhex(ret[1])
                    break
    return out
def p16(x):
    return (x or b'').ljust(16, b'\0')
def encode(c, v):
    o = bytearray([c['ty'], c['off']]) + bytes.fromhex(c['line'][0]) + bytes.fromhex(c['line'][1]) + len(c['ops']).to_bytes(2, 'little')
    for op, (e, em, w, wm) in zip(c['ops'], resolve(c, v)):
        o += bytes([KINDS.index(op['k']), op['fl']]) + op['o'].to_bytes(2, 'little') + p16(e) + p16(em) + p16(w) + p16(wm)
        if op['k'] == 'fu':
            o += bytes([len(op['steps'])])
            for a, b in op['steps']:
                o += bytes([(1 if a else 0) | (2 if b else 0)])
                for x in (a, b):
                    o += (p16(bytes.fromhex(x[0])) + p16(bytes.fromhex(x[1]))) if x else bytes(32)
    return bytes(o)

class Rd:
    def __init__(s, b): s.b, s.i = b, 0
    def n(s, k):
        if s.i + k > len(s.b): raise ToolError('vbits driver output is short')
        s.i += k
        return s.b[s.i - k:s.i]
def decode(c, rd):
    out = []
    for op in c['ops']:
        h = rd.n(3)
        d = dict(ret=h[0], retv=h[1], err=h[2], o=rd.n(16), ov=rd.n(16), m=rd.n(64), mv=rd.n(64))
        if op['k'] == 'fu':
            d['seen'] = [(rd.n(16), rd.n(16)) for _ in range(rd.n(1)[0])]
        if op['k'] == 'debug':
            d['txt'] = rd.n(rd.n(1)[0])
            d['tv'] = rd.n(1)[0]
        out.append(d)
    return out

# ---- oracle
def judge_case(c, v, obs, stats=None):
    sz, ptr = sizes(v)
    n = sz[c['ty']]
    off = c['off'] * n
    lb, lm = bytes.fromhex(c['line'][0]), bytes.fromhex(c['line'][1])
    b, m = lb[off:off + n], lm[off:off + n]
    wide = n > ptr
    same = lambda x, y, mask: all(p == q for p, q, k in zip(x, y, mask) if k == 0)
    nt = False
    for i, (op, (e, em, w, wm), d) in enumerate(zip(c['ops'], resolve(c, v), obs)):
        k = op['k']
        at = f'op {i} {k} {NAMES[c["ty"]]} flavor {op["fl"]}'
        ob, ov = d['o'][:n], d['ov'][:n]
        mb, mv = d['m'][off:off + n], d['mv'][off:off + n]
        if (d['m'][:off] + d['m'][off + n:] != lb[:off] + lb[off + n:]) or (d['mv'][:off] + d['mv'][off + n:] != lm[:off] + lm[off + n:]):
            return f'{at}: bytes or definedness around the cell changed', nt
        anyu = any(m)
        if any(m) or any(wm): nt = True
        # a loop of compare-exchanges (wide types) compares the cell by construction
        loose = wide and anyu
        noerr = not loose
        def chk(what, gb, gm, xb, xm, vb=True):
            if not same(gb, xb, xm):
                return f'{at}: {what} is {gb.hex()}, expected {xb.hex()} (uninitialised where {xm.hex()})'
            if vb and gm != xm:
                lost = [j for j in range(n) if xm[j] == 0 and gm[j] != 0]
                return f'{at}: definedness of {what} is {gm.hex()}, expected {xm.hex()}' + (f' (initialised byte {lost[0]} became uninitialised)' if lost else ' (an uninitialised byte became initialised)')
        r = None
        if k == 'load':
            r = chk('result', ob, ov, b, m, not loose) or chk('cell', mb, mv, b, m, not loose)
        elif k == 'store':
            b, m = w, wm
            r = chk('cell', mb, mv, b, m)
        elif k == 'swap':
            r = chk('result', ob, ov, b, m, not loose)
            b, m = w, wm
            r = r or chk('cell', mb, mv, b, m)
        elif k in ('cas', 'casw'):
            strict = not any(m) and not any(em)
            noerr = strict
            differs = any(x != y and not p and not q for x, y, p, q in zip(b, e, m, em))
            if d['ret'] not in (0, 1): return f'{at}: returned {d["ret"]}', nt
            if d['ret'] and differs: return f'{at}: succeeded although initialised bytes differ', nt
            if strict and k == 'cas' and not d['ret'] and b == e: return f'{at}: failed on equal bytes', nt
            if strict and d['retv']: return f'{at}: the flag is uninitialised although both values are initialised', nt
            if d['ret']:
                rm = bytes(x & y for x, y in zip(m, em))
                r = chk('result', ob, ov, b, m if strict else b'\xff' * n, strict)
                b, m = w, wm
            else:
                r = chk('result', ob, ov, b, m, strict)
            r = r or chk('cell', mb, mv, b, m)
        elif k == 'fu':
            # follow what the closure saw
            strict = True
            steps = op['steps']
            for j, (sb, sm) in enumerate(d['seen']):
                if any(m): strict = False
                r = r or chk(f'closure argument {j}', sb[:n], sm[:n], b, m, not (wide and any(m)) and strict)
                prev, prevm = b, m
                wr, ret = steps[min(j, len(steps) - 1)]
                if j >= len(steps): wr = None
                if wr:
                    b, m = bytes.fromhex(wr[0]), bytes.fromhex(wr[1])
                    if any(m): strict = False
                last = j == len(d['seen']) - 1
                if ret is None and not last: return f'{at}: called again after None', nt
                if last:
                    ok = ret is not None
                    if d['ret'] != ok: return f'{at}: returned {d["ret"]}, expected {int(ok)}', nt
                    r = r or chk('result', ob, ov, prev, prevm if strict else b'\xff' * n, strict)
                    if ok: b, m = bytes.fromhex(ret[0]), bytes.fromhex(ret[1])
                    r = r or chk('cell', mb, mv, b, m, strict or ok or not wide)
                    loose = loose or (wide and not strict and not ok)
            if not d['seen']: return f'{at}: closure not called', nt
            noerr = strict
        elif k in ('ctor', 'inject'):
            b, m = w, wm
            r = chk('cell', mb, mv, b, m)
            noerr = True
        elif k == 'extract':
            r = chk('result', ob, ov, b, m) or chk('cell', mb, mv, b, m)
            noerr = True
        else:
            noerr = True
            r = chk('cell', mb, mv, b, m)
            if d['tv']: r = r or f'{at}: Debug output is uninitialised'
            # Debug formatting is judged by C11; here only that it does not look at the contents
        if r: return r, nt
        if noerr and d['err']:
            return f'{at}: {d["err"]} branches or addresses depended on an uninitialised byte', nt
        # where the oracle leaves a choice, continue from what is there
        b, m = mb, mv if loose else m
        lb, lm = d['m'], d['mv']
    return None, nt

def execute(exe, data, timeout=600):
    rc, out, err = run(['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--error-limit=no', '--log-file=/dev/null', '--undef-value-errors=yes', exe], input=data, timeout=timeout, text=False)
    return rc, out, err

def run_cases(name, cases):
    """(index, message, nontrivial flags)"""
    v = VARIANTS[name]
    exe = vb_build(name)
    rc, out, err = execute(exe, b''.join(encode(c, v) for c in cases))
    if rc:
        raise ToolError(f'vbits driver for {name} ended with {rc}: {err[-500:]!r}')
    rd = Rd(out)
    nt = 0
    for i, c in enumerate(cases):
        m, t = judge_case(c, v, decode(c, rd))
        nt += t
        if m: return i, m, nt
    return None, None, nt

def smaller(c):
    for i in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    z = lambda s: '0' * len(s)
    for k in (0, 1):
        if c['line'][k].strip('0'):
            yield dict(c, line=[z(x) if j == k else x for j, x in enumerate(c['line'])])
    for i, op in enumerate(c['ops']):
        def put(**kw): return dict(c, ops=c['ops'][:i] + [dict(op, **kw)] + c['ops'][i + 1:])
        if op['fl']: yield put(fl=0)
        if op['o'] and op['k'] not in ('ctor', 'extract', 'inject'): yield put(o=0)
        if op['w'][1].strip('0'): yield put(w=[op['w'][0], z(op['w'][1])])
        if len(op['steps']) > 1:
            for j in range(len(op['steps'])): yield put(steps=op['steps'][:j] + op['steps'][j + 1:])

def one(name, c):
    i, m, _ = run_cases(name, [c])
    return m
def shrink(name, c, m):
    t0 = time.time()
    go = True
    while go and time.time() - t0 < 60:
        go = False
        for q in smaller(c):
            m2 = one(name, q)
            if m2:
                c, m, go = q, m2, True
                break
            if time.time() - t0 > 60: break
    return c, m

def run_vbits(prop, tier):
    if not shutil.which('valgrind'):
        raise ToolError('valgrind is not installed')
    names = list(VARIANTS)
    notes, jobs = [], []
    ok = {}
    def b(n):
        try:
            vb_build(n); return True
        except ToolError as e:
            if VARIANTS[n]['base']: raise
            notes.append(f'{n} does not build, not covered (vbits)')
            return False
    for n, g in zip(names, pmap(b, names)): ok[n] = g
    per, chunks = (3000, 2) if tier == 'quick' else (4000, 40)
    for n in names:
        if not ok[n]: continue
        for ch in range(chunks): jobs.append((n, ch))
    stop = [False]
    def go(j):
        if stop[0]: return None
        name, ch = j
        r = random.Random(f'{SEED}-vbits-{name}-{ch}')
        cases = [gcase(r, VARIANTS[name]) for _ in range(per)]
        i, m, nt = run_cases(name, cases)
        fails = []
        if m:
            stop[0] = True
            c = cases[i]
            # alone first; with its predecessors when alone it passes
            m1 = one(name, c)
            if m1:
                c, m = shrink(name, c, m1)
                fails = [dict(kind='eng_vbits', variant=name, part='vbits', case=c, message=f'{name}: {m}', key=None)]
            else:
                raise ToolError(f'vbits {name}: case {i} failed in its batch but not alone: {m}')
        return dict(part='vbits', variant=name, rc=0, res=dict(evaluations=len(cases), distinct_nontrivial=nt, classes={}, samples=[cases[0]]), failures=fails,
                    rule='vbits: one case = a history of up to 7 calls with random bytes and definedness masks under Memcheck, judged after every call; non-trivial: an uninitialised byte in the cell or in the operand of some call')
    return [r for r in pmap(go, jobs) if r], notes

def replay(rep):
    m1 = one(rep['variant'], rep['case'])
    return m1

def register(engine):
    engine('C04')(run_vbits)
