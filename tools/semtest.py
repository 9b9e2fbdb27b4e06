#!/usr/bin/env python3
"""tools/semtest.py SEED [CONFIG-PREFIX [LEVEL]]: tests the interpreters themselves. Generates pure functions, compiles them for every
configuration of eng_emu, interprets the machine code and compares results with the same functions run natively (x86_64)."""
import ctypes, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, '/verif')
sys.path.insert(0, '/verif/emu/py')
import eng_emu, vlib
from vlib import pmap
T = ['u8', 'u16', 'u32', 'u32', 'u64', 'u64', 'u128']
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128}

def const(r, t):
    n = BITS[t]
    k = r.randrange(6)
    if k == 0: v = r.randrange(4)
    elif k == 1: v = (1 << n) - 1 - r.randrange(3)
    elif k == 2: v = 1 << r.randrange(n)
    elif k == 3: v = (1 << r.randrange(1, n)) - 1
    elif k == 4: v = r.getrandbits(n)
    else: v = 255
    return f'{v & (1 << n) - 1}{t}'
def ex(r, t, vs, d):
    """expression of unsigned type t"""
    n = BITS[t]
    s = 'i' + t[1:]
    if d == 0 or r.random() < .15:
        c = [v for v, ty in vs if ty == t]
        return r.choice(c) if c and r.random() < .8 else const(r, t)
    k = r.randrange(13)
    e = lambda: ex(r, t, vs, d - 1)
    if k == 0: return f'({e()}).wrapping_add({e()})'
    if k == 1: return f'({e()}).wrapping_sub({e()})'
    if k in (2, 3, 4): return f'({e()} {"&|^"[k - 2]} {e()})'
    if k == 5: return f'(!{e()})'
    if k == 6: return f'({e()}).wrapping_{r.choice(["shl", "shr"])}({r.randrange(n) if r.random() < .6 else "(" + e() + ") as u32"})'
    if k == 7: return f'((({e()}) as {s}).wrapping_shr({r.randrange(n) if r.random() < .6 else "(" + e() + ") as u32"}) as {t})'
    if k in (8, 9): return f'(if {cond(r, vs, d - 1)} {{ {e()} }} else {{ {e()} }})'
    if k == 10: return f'(({cond(r, vs, d - 1)}) as {t})'
    if k == 11:
        u = r.choice(T)
        return f'(({ex(r, u, vs, d - 1)}) as {t})' if r.random() < .5 else f'((({ex(r, u, vs, d - 1)}) as i{u[1:]}) as {t})'
    if r.random() < .3: return f'(({e()}).leading_zeros() as {t})'
    if r.random() < .2: return f'({e()}).wrapping_mul({e()})'
    return f'(0{t}.wrapping_sub({e()}))'
def cond(r, vs, d):
    t = r.choice(T)
    c = [ty for _, ty in vs]
    if r.random() < .8: t = r.choice(c)
    a, b = ex(r, t, vs, d), ex(r, t, vs, d)
    k = r.randrange(8)
    if k < 3: return f'({a}) {["==", "!=", "=="][k]} ({b})'
    if k < 5: return f'({a}) {r.choice(["<", "<=", ">", ">="])} ({b})'
    if k < 7: return f'(({a}) as i{t[1:]}) {r.choice(["<", "<=", ">", ">="])} (({b}) as i{t[1:]})'
    return f'({a}) & {const(r, t)} != 0'
def fn(r, k):
    t = r.choice(T)
    vs = [('a', t), ('b', t)]
    body = ''
    small = 'SMALL' in os.environ
    for i in range(0 if small else r.randrange(3)):
        u = r.choice(T) if r.random() < .4 else t
        body += f'        let v{i}: {u} = {ex(r, u, vs, 2)};\n'
        vs.append((f'v{i}', u))
    if r.random() < .4 and not small:
        body += f'        let mut m: {t} = {ex(r, t, vs, 1)};\n'
        vs.append(('m', t))
        if r.random() < .5:
            body += f'        if {cond(r, vs, 1)} {{ m = {ex(r, t, vs, 2)}; }} else if {cond(r, vs, 1)} {{ m = {ex(r, t, vs, 1)}; *ok = 1; }}\n'
        else:
            body += f'        let mut i = 0; while i < ({ex(r, t, vs[:-1], 1)} & 7) {{ m = {ex(r, t, vs, 2)}; core::hint::black_box(()); i += 1; }}\n'
    e = ex(r, t, vs, 1 + r.randrange(2) if small else 3)
    n = f'load_{t}_x{k}'
    return f'''#[no_mangle] pub unsafe extern "C" fn {n}(p: *mut u8) {{
        let (a, b) = (*(p.add(16) as *const {t}), *(p.add(32) as *const {t}));
        let ok = p.add(64);
        *ok = 0;
{body}        let x: {t} = {e};
        *(p.add(48) as *mut {t}) = x;
        {'' if small else 'if ' + cond(r, vs, 1) + ' { *ok |= 2; }'}
    }}
''', n

def main():
    seed = sys.argv[1]
    pre = sys.argv[2] if len(sys.argv) > 2 else ''
    level = sys.argv[3] if len(sys.argv) > 3 else '3'
    r = random.Random(f'semtest-{seed}')
    fs = [fn(r, k) for k in range(int(os.environ.get('NF', '300')))]
    d = tempfile.mkdtemp(prefix='semtest')
    try:
        src = '#![allow(warnings)]\n' + ''.join(f for f, _ in fs)
        open(f'{d}/n.rs', 'w').write(src)
        subprocess.run(['rustc', '+' + vlib.NIGHTLY, '--edition', '2021', '--crate-type', 'cdylib', '-Copt-level=1', '-o', f'{d}/n.so', f'{d}/n.rs'], check=True, capture_output=True)
        lib = ctypes.CDLL(f'{d}/n.so')
        cases = []
        for _, n in fs:
            size = BITS[n.split('_')[1]] // 8
            for i in range(24):
                a, b = [r.choice([r.getrandbits(8 * size), r.randrange(4), (1 << 8 * size) - 1 - r.randrange(3), 1 << r.randrange(8 * size), r.getrandbits(4 * size)]) for _ in 'ab']
                if r.random() < .3: b = a ^ r.choice([0, 0, 1 << r.randrange(8 * size)])
                raw = ctypes.create_string_buffer(256 + 16)
                off = -ctypes.addressof(raw) % 16
                p = ctypes.addressof(raw) + off
                ctypes.memmove(p + 16, a.to_bytes(size, 'little'), size)
                ctypes.memmove(p + 32, b.to_bytes(size, 'little'), size)
                getattr(lib, n)(ctypes.c_void_p(p))
                out = int.from_bytes(ctypes.string_at(p + 48, size), 'little')
                cases.append((n, size, a, b, out, ctypes.string_at(p + 64, 1)[0]))
        def go(j):
            c, lv = j
            nm = eng_emu.name(c) + ' ' + lv
            td = tempfile.mkdtemp(dir=d)
            os.makedirs(f'{td}/src')
            open(f'{td}/src/lib.rs', 'w').write('#![no_std]\n' + src)
            open(f'{td}/Cargo.toml', 'w').write(f'[package]\nname = "emu"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.release]\nopt-level = "s"\ncodegen-units = 1\npanic = "abort"\noverflow-checks = false\n'.replace('"s"', f'"{lv}"' if lv in 'sz' else lv))
            rf = ' '.join(vlib.CORE_FLAGS.get(c[0], []) if '-Ctarget-cpu' not in c[1] else []) + f' {c[1]} --sysroot={vlib.core_for(c[0])}'
            rc, o, e = vlib.run(['cargo', 'build', '--offline', '-q', '--release', '--target', c[0], '--manifest-path', f'{td}/Cargo.toml'], env={'CARGO_TARGET_DIR': f'{td}/t', 'RUSTFLAGS': rf.strip(), 'RUSTC': vlib.nightly_rustc()})
            if rc: return nm, f'build: {e[-200:]}'
            import glob
            od = glob.glob(vlib.nightly_sysroot() + '/lib/rustlib/*/bin/llvm-objdump')[0]
            lb = f'{td}/t/{c[0]}/release/libemu.rlib'
            rc, dis, e = vlib.run([od, '-d', '-r', '--no-show-raw-insn'] + c[3] + [lb])
            open(f'{td}/dis', 'w').write(dis)
            import json
            json.dump(cases, open(f'{td}/cases', 'w'))
            rc, o, e = vlib.run([sys.executable, __file__, 'interp', c[2], lb, f'{td}/dis', f'{td}/cases'], timeout=900)
            q = re.search(r'BAD (load_\w+)', o)
            if q:       # its machine code
                o += re.search(r'\n[0-9a-f]+ <' + q.group(1) + r'>:\n.*?(?=\n\n|\Z)', dis, re.S).group(0)
            shutil.rmtree(td)
            return nm, o.strip() if rc == 0 else f'{rc} {e[-300:]}'
        bad = 0
        for nm, o in pmap(go, [(c, l) for c in eng_emu.CONFIGS if eng_emu.name(c).startswith(pre) for l in level.split(',')]):
            print(nm, '|', o, flush=True)
            for m in re.findall(r'BAD (load_\w+)', o)[:1]:
                print(next(f for f, n in fs if n == m))
    finally:
        shutil.rmtree(d)

def interp():
    import json, importlib, collections
    from checks import World, Run, Thread
    from core import Elf, ar_members, Unmodelled, Fault
    import run as R
    spec, lib, dis, cases = sys.argv[2:6]
    w = R.load(spec, lib, dis)
    um, ran, bad = collections.Counter(), 0, []
    for n, size, a, b, out, ok in json.load(open(cases)):
        f = w.fns.get(n)
        if not f: um['missing'] += 1; continue
        run = Run(w, dict(base={8: 0x10000, 4: 0x7ffe0000, 2: 0x400}[w.arch.word], cell='00' * 16, noise=n + str(a)))
        t = run.thread(0, f, run.base, a, b)
        try:
            for _ in range(20000):
                if t.done: break
                t.step()
            else: bad.append(f'BAD {n}({a:#x}, {b:#x}) does not end'); continue
            got, k, viol = int.from_bytes(t.args.b[48:48 + size], w.arch.end), t.args.b[64], []
            ran += 1
            for x, v in t.saved:
                if t.r[x] != v: viol.append(w.arch.rname(x))
            viol += w.arch.at_return(t)
            if got != out or k != ok or viol: bad.append(f'BAD {n}({a:#x}, {b:#x}) -> {got:#x}/{k}, should be {out:#x}/{ok} {viol}')
        except Unmodelled as e: um[re.sub(r'<.*', '', str(e))[:60]] += 1
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e: um[f'internal {e!r} in {t.prog.get(t.pc)}'[:80]] += 1
        except Fault as e: bad.append(f'BAD {n}({a:#x}, {b:#x}) faults: {e}')
    bad.sort(key=lambda b: len(w.fns[b.split()[1].split('(')[0]].prog) if hasattr(w.fns[b.split()[1].split('(')[0]],'prog') else 0)
    print(ran, 'ran,', sum(um.values()), 'not', um.most_common(int(os.environ.get('UM', '3'))), *bad[:3], f'({len(bad)} bad)' if bad else '')
if __name__ == '__main__':
    interp() if sys.argv[1] == 'interp' else main()
