"""Building from /repo's working tree and running harness jobs."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading, time
from variants import VARIANTS, X, I
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('AMU_REPO', '/repo')
TARGET = os.path.join(ROOT, 'target')
WORK = os.path.join(ROOT, 'work')
TOOLCHAIN = '1.97.0'
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
_log_lock = threading.Lock()
_children = set()

class ToolError(Exception):
    """The machinery could not decide (build or tool failure): never a verdict."""

def log(*a):
    with _log_lock:
        print(*a, file=sys.stderr, flush=True)

def run(cmd, env=None, timeout=600, cwd=None, input=None, text=True):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUST_BACKTRACE'] = '0'
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text, start_new_session=True, errors='replace' if text else None)
    with _log_lock:
        _children.add(p)
    try:
        out, err = p.communicate(input, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        kill(p)
        p.wait()
        return -1000, '' if text else b'', 'timeout' if text else b'timeout'
    finally:
        with _log_lock:
            _children.discard(p)

def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass

def kill_all():
    with _log_lock:
        ps = list(_children)
    for p in ps:
        kill(p)

def pmap(f, items, workers=None):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=workers or NCPU) as ex:
        return list(ex.map(f, items))

# ---- builds
_built = {}
_blocks = {}
def once(key, f):
    with _log_lock:
        l = _blocks.setdefault(key, threading.Lock())
    with l:
        if key not in _built:
            try:
                _built[key] = (True, f())
            except ToolError as e:
                _built[key] = (False, e)
        ok, v = _built[key]
    if not ok:
        raise v
    return v

def harness(target):
    def go():
        td = os.path.join(TARGET, 'harness')
        if target != X:
            td += '-' + target
        rc, out, err = run(['cargo', 'build', '--offline', '--release', '--target', target, '-q', '--manifest-path', f'{ROOT}/harness/Cargo.toml'], env={'CARGO_TARGET_DIR': td})
        if rc:
            raise ToolError(f'harness build for {target} failed:\n{err[-3000:]}')
        return f'{td}/{target}/release/harness'
    return once(('harness', target), go)

def shim_flags(v):
    f = v['flags']
    for k, n in (('s64', 'shim_64'), ('s128', 'shim_128'), ('cas', 'shim_cas')):
        if v[k]:
            f += f' --cfg {n}'
    return f.strip()

def shim(name):
    def go():
        v = VARIANTS[name]
        td = os.path.join(TARGET, 'shim', name)
        cmd = ['cargo', 'build', '--offline', '-q', '--target', v['target'], '--manifest-path', f'{ROOT}/shim/Cargo.toml']
        if v['profile'] == 'release':
            cmd.append('--release')
        rc, out, err = run(cmd, env={'CARGO_TARGET_DIR': td, 'RUSTFLAGS': shim_flags(v)})
        if rc:
            raise ToolError(f'shim build {name} failed:\n{err[-3000:]}')
        return f'{td}/{v["target"]}/{v["pdir"]}/libshim.so'
    return once(('shim', name), go)

def build(variants):
    """Builds the harness and the shims; returns the variants that built and notes about the others."""
    variants = list(dict.fromkeys(variants))
    jobs = [('h', t) for t in dict.fromkeys(VARIANTS[v]['target'] for v in variants)] + [('s', v) for v in variants]
    notes = []
    good = []
    def one(j):
        try:
            (harness if j[0] == 'h' else shim)(j[1])
            return None
        except ToolError as e:
            return e
    for j, e in zip(jobs, pmap(one, jobs)):
        if e is None:
            if j[0] == 's':
                good.append(j[1])
        elif j[0] == 'h' or VARIANTS[j[1]]['base']:
            raise e
        else:
            notes.append(f'{j[1]} does not build, not covered')
            log(str(e))
    return good, notes

# ---- harness jobs
class Job:
    def __init__(self, part, variant, cases, seed=None, cpus=None, env=None, timeout=420):
        self.part, self.variant, self.cases, self.seed, self.cpus, self.env, self.timeout = part, variant, cases, seed, cpus, env, timeout

def run_job(j):
    v = VARIANTS[j.variant]
    h = harness(v['target'])
    s = shim(j.variant)
    os.makedirs(WORK, exist_ok=True)
    fd, out = tempfile.mkstemp(dir=WORK, suffix='.json')
    os.close(fd)
    seed = j.seed if j.seed is not None else SEED
    t = time.time()
    cmd = [h, '--lib', s, '--part', j.part, '--cases', str(j.cases), '--seed', str(seed), '--out', out]
    if j.cpus:
        cmd += ['--cpus', ','.join(map(str, j.cpus))]
    rc, so, se = run(cmd, env=j.env, timeout=j.timeout)
    try:
        res = json.load(open(out)) if rc == 0 else None
    except ValueError:
        res = None
    os.unlink(out)
    dt = time.time() - t
    return dict(part=j.part, variant=j.variant, rc=rc, res=res, err=se[-2000:], wall=dt, seed=seed)

def replay_harness(rep):
    """Runs one recorded case again; returns the failure message or None."""
    v = VARIANTS[rep['variant']]
    h = harness(v['target'])
    s = shim(rep['variant'])
    os.makedirs(WORK, exist_ok=True)
    fd, f = tempfile.mkstemp(dir=WORK, suffix='.json')
    os.write(fd, json.dumps(rep).encode())
    os.close(fd)
    cmd = [h, '--lib', s, '--part', rep['part'], '--replay', f]
    if rep['part'].startswith('hw_'):
        cmd += ['--cpus', ','.join(str(c) for c in range(NCPU))]
    rc, so, se = run(cmd, timeout=300)
    os.unlink(f)
    if rc != 0:
        return f'harness ended with status {rc}: {se[-500:]}', rc
    r = json.loads(so)
    return (r['failure']['message'] if r.get('failure') else None), rc

# ---- a sysroot with only core's metadata for targets that have no installed standard library
NIGHTLY = 'nightly'
def nightly_sysroot():
    def go():
        rc, out, err = run(['rustc', '--print', 'sysroot'], env={'RUSTUP_TOOLCHAIN': NIGHTLY})
        if rc:
            raise ToolError('no nightly toolchain')
        return out.strip()
    return once('nsys', go)

# targets whose objects record the cpu they were built for
CORE_FLAGS = {'avr-none': ['-Ctarget-cpu=atmega328p']}
def core_for(target):
    """Path of a sysroot containing core for `target` (metadata only)."""
    def go():
        sr = f'{TARGET}/sysroot'
        d = f'{sr}/lib/rustlib/{target}/lib'
        os.makedirs(d, exist_ok=True)
        env = {'RUSTUP_TOOLCHAIN': NIGHTLY}
        src = nightly_sysroot() + '/lib/rustlib/src/rust/library/core/src/lib.rs'
        common = ['--crate-type', 'lib', '--emit=metadata', '--target', target, '-Cpanic=abort', '-Zforce-unstable-if-unmarked', '-Zalways-encode-mir'] + CORE_FLAGS.get(target, [])
        f = f'{d}/libcore-0123456789abcdef.rmeta'
        if not os.path.exists(f):
            # optimisation so that small functions keep their MIR
            tmp = f'{d}/tmp-core'
            rc, out, err = run(['rustc', '--crate-name', 'core', '--edition', '2024', '-Copt-level=3'] + common + [src, '-o', tmp], env=env)
            if rc:
                raise ToolError(f'core for {target}: {err[-1500:]}')
            os.replace(tmp, f)
        g = f'{d}/libcompiler_builtins-0123456789abcdef.rmeta'
        if not os.path.exists(g):
            tmp = f'{d}/tmp-cb'
            rc, out, err = run(['rustc', '--crate-name', 'compiler_builtins'] + common + [f'{ROOT}/probe/compiler_builtins_stub.rs', '-o', tmp], env=env)
            if rc:
                raise ToolError(f'compiler_builtins for {target}: {err[-1500:]}')
            os.replace(tmp, g)
        return sr
    return once(('core', target), go)

def nightly_rustc():
    return nightly_sysroot() + '/bin/rustc'
