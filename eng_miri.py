"""C11 (and C04, for what becomes of uninitialised bytes): generated sequences over constructors, conversions, from_ptr, get_mut, as_ptr, into_inner and Debug, interpreted by Miri
(aliasing model, initialisation, alignment, provenance, data races). Oracle: Miri plus a byte model inside the driver (miri/)."""
import os, random, re
from vlib import *
import vlib
FLAGS = {'sb': '', 'tb': '-Zmiri-tree-borrows', 'strict': '-Zmiri-strict-provenance -Zmiri-symbolic-alignment-check'}
# what C04 says: an uninitialised value is as good as any other, and initialised bytes survive
UNINIT = r'uninitialized|byte \d+ is '
TARGETS = ['x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu']

def miri(cases, flags, target=TARGETS[0], timeout=600, tag='q'):
    env = {'RUSTUP_TOOLCHAIN': NIGHTLY, 'MIRIFLAGS': FLAGS[flags], 'CARGO_TARGET_DIR': f'{TARGET}/miri'}
    return run(['cargo', 'miri', 'run', '--offline', '-q', '--target', target, '--manifest-path', f'{ROOT}/miri/Cargo.toml', '--'] + [','.join(map(str, c)) for c in cases], env=env, timeout=timeout)

def outcome(rc, out, err):
    """None (all fine), or (index of the case, message), or ToolError"""
    n = out.count('case ')
    if rc == 0 and out.rstrip().endswith('end'):
        return None
    m = re.search(r'error: (Undefined Behavior: .*)', err) or re.search(r"(panicked at .*\n.*)", err)
    if m and n:
        return n - 1, m.group(1)[:400]
    raise ToolError(f'Miri ended with {rc}: {err[-800:]}')

def gen(r):
    return [r.randrange(12), r.randrange(7)] + [r.randrange(1 << 20) for _ in range(r.randint(4, 40))]
def one(case, fl, tg):
    o = outcome(*miri([case], fl, tg))
    return o[1] if o else None
def shrink(case, fl, tg, m):
    t0 = time.time()
    k = len(case) // 2
    while k >= 1 and time.time() - t0 < 60:
        i = 2
        while i < len(case) and time.time() - t0 < 60:
            q = case[:i] + case[i + k:]
            m2 = one(q, fl, tg)
            if m2: case, m = q, m2
            else: i += k
        k //= 2
    return case, m

def warm(tg):
    env = {'RUSTUP_TOOLCHAIN': NIGHTLY}
    rc, out, err = run(['cargo', 'miri', 'setup', '--target', tg], env=env, timeout=600)
    if rc: raise ToolError(err[-600:])

def run_miri(prop, tier):
    notes = []
    tgs = []
    for tg in TARGETS:
        try:
            warm(tg)
            tgs.append(tg)
        except ToolError as e:
            notes.append(f'Miri does not run here for {tg}, not covered: {str(e)[-200:]}')
            log('Miri unavailable for', tg, str(e)[-1500:])
    for tg in tgs:
        rc, out, err = miri([], 'sb', tg)
        if rc: raise ToolError(f'the Miri driver does not build for {tg}: {err[-1500:]}')
    per, chunks = (60, 3) if tier == 'quick' else (400, 20)
    flags = FLAGS if prop == 'C11' else ['tb']
    jobs = [(tg, fl, ch) for tg in tgs for fl in flags for ch in range(chunks)]
    stop = [False]
    def go(j):
        if stop[0]: return None
        tg, fl, ch = j
        r = random.Random(f'{SEED}-miri-{prop}-{tg}-{fl}-{ch}')
        cases = [gen(r) for _ in range(per)]
        o = outcome(*miri(cases, fl, tg, timeout=900))
        if o and prop == 'C04' and not re.search(UNINIT, o[1]): o = None
        fails = []
        if o:
            stop[0] = True
            i, m = o
            m1 = one(cases[i], fl, tg)
            if not m1: raise ToolError(f'Miri: case failed in its batch but not alone: {m}')
            c, m = shrink(cases[i], fl, tg, m1)
            m = one(c, fl, tg) or m
            fails = [dict(kind='eng_miri', variant=tg, part='miri', case=dict(choices=c, flags=fl), message=f'Miri ({fl}, {tg}): {m}', key=None)]
        return dict(part='miri', variant=f'{tg}-{fl}', rc=0, res=dict(evaluations=per, distinct_nontrivial=sum(len(c) > 10 for c in cases), classes={fl: per}, samples=[','.join(map(str, cases[0]))]), failures=fails,
                    rule='miri: one case = a sequence of non-atomic API calls on one container kind under Miri; non-trivial: more than ten choices, i.e. at least two steps after construction')
    return [r for r in pmap(go, jobs) if r], notes

def replay(rep):
    return one(rep['case']['choices'], rep['case']['flags'], rep['variant'])

def register(engine):
    engine('C11', 'C04')(run_miri)
