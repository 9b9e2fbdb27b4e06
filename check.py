#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property for /repo's current tree
   check.py replay <file>                 run one recorded violation again
   check.py setup                         build everything the checks need"""
import hashlib, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *

ALL = list(VARIANTS)
REL = [v for v in ALL if v.endswith('-rel')]
# (part, variants, quick cases per variant, thorough cases per variant); unoptimised builds get a third of the
# instruction-level cases because each takes many more single steps.
PLAN = {
 'C01': [('hist', ALL, 40000, 1500000)],
 'C02': [('cas', ALL, 40000, 1500000)],
 'C03': [('outside', ALL, 20000, 600000), ('readonly', ALL, 8000, 100000), ('outside_step', ALL, 2400, 40000)],
 'C05': [('tear_step', ALL, 2400, 40000), ('tear_sweep', ALL, 4000, 400000), ('tear_aba', ALL, 1500, 60000), ('hw_tear', ALL, 40, 600)],
 'C06': [('lin_step', ALL, 2400, 40000), ('lin_sweep', ALL, 4000, 400000), ('lin_aba', ALL, 1500, 60000), ('hw_contend', ALL, 40, 600)],
 'C07': [('hw_mp', ALL, 24, 400)],
 'C08': [('hw_sc', ALL, 14, 300)],
 'C09': [('orders_all', ALL, 1, 1), ('orders', ALL, 30000, 1000000)],
 'C10': [('fu', ALL, 30000, 1000000), ('fu_step', ALL, 2400, 40000)],
 'C11': [('api', ALL, 30000, 800000), ('layout', ALL, 1, 1)],
 'C13': [('abi_step', ALL, 3000, 60000)],
 'C14': [('rawdiff', ALL, 40000, 1500000)],
 'C15': [('freeze', ALL, 1200, 25000), ('progress', ALL, 1200, 25000)],
}
STEP = {'tear_aba', 'lin_aba', 'outside_step', 'tear_step', 'lin_step', 'fu_step', 'abi_step', 'freeze', 'progress'}
ONCE = {'orders_all', 'layout', 'tear_sweep', 'lin_sweep'}
CHUNK = {'quick': {True: 800, False: 40000}, 'thorough': {True: 2000, False: 100000}}
RULES = {
 'hist': 'random operation histories against a model variable; non-trivial: at least one write or successful compare-exchange',
 'cas': 'compare-exchange histories whose expected value is derived from the cell (equal, one bit/byte/half off); non-trivial: at least one success and one failure',
 'outside': 'histories with random neighbours and page-edge placement, surrounding bytes compared after each operation; non-trivial: at least one write',
 'readonly': 'loads from a read-only page; non-trivial: type no wider than a pointer',
 'outside_step': 'single-stepped histories with plain neighbour writes interleaved between instructions; non-trivial: a preemption inside an operation',
 'tear_step': 'single-stepped concurrent histories, memory image after every instruction and every result must be a stored value; non-trivial: a preemption inside an operation',
 'tear_sweep': 'every single-preemption schedule of fixed operation pairs; non-trivial: the preemption fell inside an operation',
 'tear_aba': 'another thread changes the value and changes it back at two chosen instructions of one operation, every result must be a stored value; non-trivial: both inside the operation or one of them',
 'lin_aba': 'as tear_aba, history checked for linearizability; non-trivial: a preemption inside the operation',
 'lin_step': 'single-stepped concurrent histories checked for linearizability; non-trivial: a preemption inside an operation',
 'lin_sweep': 'every single-preemption schedule of fixed operation pairs; non-trivial: the preemption fell inside an operation',
 'fu': 'fetch_update with scripted closures (values, None, panic, reentrant writes) against a trace oracle; non-trivial: a retry or a None',
 'fu_step': 'fetch_update against concurrent writers, single-stepped; non-trivial: a preemption inside an operation',
 'orders_all': 'every operation x ordering (pair) x type, both compile-time and run-time orderings; all non-trivial',
 'orders': 'histories with arbitrary orderings; non-trivial: at least one call that must be rejected',
 'api': 'histories mixing constructors, get_mut, as_ptr, from_ptr, into_inner, Debug and atomic operations; all non-trivial',
 'layout': 'size, alignment, stride, address and auto-trait facts of every type; all non-trivial',
 'rawdiff': 'the same history through methods and raw functions on two cells; non-trivial: at least one write or compare-exchange',
 'abi_step': 'single-stepped calls with random register contents; callee-saved registers, stack pointer, direction flag, x87 and MXCSR state compared at return; all non-trivial',
 'freeze': 'one thread stopped for good after k instructions, the others must finish within a step bound; non-trivial: stopped inside an operation',
 'progress': 'single-stepped concurrent histories, each operation bounded by a step count; non-trivial: a preemption inside an operation',
 'hw_sc': 'generated SeqCst litmus programs on real cores, outcomes compared with the set of interleavings; non-trivial: more than one outcome seen',
 'hw_mp': 'generated message-passing programs on real cores; non-trivial: more than one outcome seen',
 'hw_contend': 'contended counters/tokens/locks on real cores; non-trivial: at least one failed attempt (real contention)',
 'hw_tear': 'writers and readers of distinctive patterns on real cores; non-trivial: a reader saw the value change',
}
# Engines outside the harness: property -> list of functions (property, tier) -> list of results
ENGINES = {}
def engine(*props):
    def d(f):
        for p in props:
            ENGINES.setdefault(p, []).append(f)
        return f
    return d
for m in ('eng_gen', 'eng_vbits', 'eng_miri', 'eng_avail', 'eng_emu', 'eng_types'):
    if os.path.exists(f'{ROOT}/{m}.py'):
        __import__(m).register(engine)

def subseed(*k):
    return int.from_bytes(hashlib.sha256(repr((SEED,) + k).encode()).digest()[:7], 'big')

def jobs_for(prop, tier, good):
    js, hw = [], []
    for part, vs, q, t in PLAN.get(prop, []):
        n0 = q if tier == 'quick' else t
        step = part in STEP
        for v in vs:
            if v not in good:
                continue
            n = n0 // 3 if step and v.endswith('-dbg') else n0
            if part.startswith('hw_'):
                env = {'HW_LIMIT_MS': '1500'} if tier == 'quick' else {'HW_LIMIT_MS': '3000', 'HW_ITERS': '60000'}
                hw.append(Job(part, v, n, seed=subseed(part, v), env=env, timeout=300 if tier == 'quick' else 3600))
            elif part in ONCE:
                js.append(Job(part, v, n, seed=subseed(part, v), timeout=600 if tier == 'quick' else 7200))
            else:
                ch = CHUNK[tier][step]
                for i in range((n + ch - 1) // ch):
                    js.append(Job(part, v, min(ch, n - i * ch), seed=subseed(part, v, i), timeout=600 if tier == 'quick' else 7200))
    js.sort(key=lambda j: (not (j.part in STEP), not j.variant.endswith('-dbg')))
    return js, hw

class Found(Exception):
    pass

def save_replay(prop, rep):
    d = f'{ROOT}/replays'
    os.makedirs(d, exist_ok=True)
    s = json.dumps(rep, indent=1)
    f = f'{d}/{prop}-{hashlib.sha256(s.encode()).hexdigest()[:12]}.json'
    with open(f, 'w') as o:
        o.write(s)
    return f

def judge(prop, r, errors):
    """A harness result: None, or a confirmed failure record."""
    if r['rc'] == 0 and r['res'] is not None:
        fl = r['res'].get('failure')
        if not fl:
            return None
        rep = dict(property=prop, kind='harness', variant=r['variant'], part=r['part'], case=fl['case'], message=fl['message'], seed=r['seed'])
        if r['part'].startswith('hw_'):
            return rep  # an observed impossible outcome is evidence by itself
        for _ in range(2):
            m, rc = replay_harness(rep)
            if m:
                return rep
        errors.append(f"{r['part']} {r['variant']}: a failure did not reproduce: {fl['message'][:300]}")
        return None
    if r['rc'] in (-11, -6, -4, -7, -8):
        # the process died: find the case
        os.makedirs(WORK, exist_ok=True)
        tr = f"{WORK}/trace-{os.getpid()}-{r['part']}-{r['variant']}-{r['seed']}"
        r2 = run_job(Job(r['part'], r['variant'], r['cases'], seed=r['seed'], env={'HARNESS_TRACE': tr}, cpus=r.get('cpus')))
        if r2['rc'] == r['rc'] and os.path.exists(tr):
            case = json.load(open(tr))
            rep = dict(property=prop, kind='harness', variant=r['variant'], part=r['part'], case=case, message=f"process died with signal {-r['rc']}", seed=r['seed'])
            m, rc = replay_harness(rep)
            os.unlink(tr)
            if m:
                return rep
        errors.append(f"{r['part']} {r['variant']}: harness died with {r['rc']}, not reproduced")
        return None
    errors.append(f"{r['part']} {r['variant']}: harness ended with {r['rc']}: {r['err'][-300:]}")
    return None

def load_known():
    f = f'{ROOT}/known_findings.json'
    return json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}

def is_known(rep, known):
    if not rep.get('key'):
        return None
    for k in known['findings']:
        if k['property'] == rep['property'] and k.get('key') and k['key'] == rep.get('key'):
            return k
    return None

def main(prop, tier):
    t0 = time.time()
    known = load_known()
    errors, notes, results, fails = [], [], [], []
    need = sorted({v for _, vs, _, _ in PLAN.get(prop, []) for v in vs}, key=ALL.index)
    try:
        if need:
            good, n = build(need)
            notes += n
            js, hw = jobs_for(prop, tier, good)
        else:
            js, hw = [], []
        stop = [False]
        def go(j):
            if stop[0]:
                return
            r = run_job(j)
            r['cases'] = j.cases
            r['cpus'] = j.cpus
            if stop[0]:
                return
            results.append(r)
            f = judge(prop, r, errors)
            if f:
                fails.append(f)
                stop[0] = True
                vlib.kill_all()
        if hw and not stop[0]:
            # real-core parts first, two at a time on disjoint cores, nothing else running
            half = max(1, NCPU // 2)
            import queue
            q = queue.Queue()
            for s in range(2 if NCPU >= 8 else 1):
                q.put(list(range(s * half, (s + 1) * half)) if NCPU >= 8 else list(range(NCPU)))
            def gohw(j):
                c = q.get()
                try:
                    j.cpus = c
                    go(j)
                finally:
                    q.put(c)
            pmap(gohw, hw, 2 if NCPU >= 8 else 1)
        if not stop[0]:
            pmap(go, js)
        if not fails:
            for e in ENGINES.get(prop, []):
                try:
                    rs, n = e(prop, tier)
                except ToolError as x:
                    errors.append(f'{e.__name__}: {x}')
                    continue
                notes += n
                for r in rs:
                    results.append(r)
                    for fl in r.get('failures', []):
                        fails.append(dict(fl, property=prop))
                if any(not is_known(f, known) for f in fails):
                    break
    except ToolError as e:
        errors.append(str(e))
    new = [f for f in fails if not is_known(f, known)]
    hits = {k['key'] for f in fails for k in [is_known(f, known)] if k}
    for k in known['findings']:
        if k['property'] == prop and k['key'] in hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    evidence(prop, tier, results, notes, errors, len(new), time.time() - t0)
    for e in errors:
        log('ERROR', e)
    if new:
        for f in new[:3]:
            print(f['message'][:2000], file=sys.stderr)
            p = save_replay(prop, f)
            print(f'VIOLATION property={prop} replay={p}', flush=True)
        return 1
    return 2 if errors else 0

def evidence(prop, tier, results, notes, errors, nviol, wall):
    parts, ev, nt, samples, variants = {}, 0, 0, [], set()
    rules = []
    for r in results:
        res = r.get('res')
        if not res:
            continue
        d = parts.setdefault(r['part'], dict(evaluations=0, distinct_nontrivial=0, classes={}, variants={}))
        d['evaluations'] += res['evaluations']
        d['distinct_nontrivial'] += res['distinct_nontrivial']
        ev += res['evaluations']
        nt += res['distinct_nontrivial']
        for k, n in res.get('classes', {}).items():
            d['classes'][k] = d['classes'].get(k, 0) + n
        d['variants'][r['variant']] = d['variants'].get(r['variant'], 0) + res['evaluations']
        rule = r.get('rule') or RULES.get(r['part'])
        if rule and f"{r['part']}: {rule}" not in rules:
            rules.append(f"{r['part']}: {rule}")
        if res.get('samples') and sum(1 for s in samples if s['part'] == r['part']) < 3:
            samples.append(dict(part=r['part'], variant=r['variant'], **(res['samples'][-1] if isinstance(res['samples'][-1], dict) else {'case': res['samples'][-1]})))
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=SEED, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule='; '.join(rules) or 'none ran', samples=samples, parts=parts, notes=notes, errors=errors,
                      distinct_note='distinct within each job (part, build, seed chunk), summed over jobs'),
        assumptions=['x86/x86_64 host processor; see DESIGN.md'], wall_s=round(wall, 1), violations=nviol),
        open(f'{ROOT}/evidence/{prop}.json', 'w'), indent=1)

def replay(f):
    rep = json.load(open(f))
    if rep['kind'] == 'harness':
        m, rc = replay_harness(rep)
    else:
        m = sys.modules[rep['kind']].replay(rep)
    print(m or 'the recorded case passes')
    if m:
        print(f"VIOLATION property={rep['property']} replay={f}")
    return 1 if m else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'setup':
        build(ALL)
        def warm(j):
            try:
                j[0](*j[1:])
            except ToolError as e:
                log('setup:', e)
        m = sys.modules
        pmap(warm, [(m['eng_vbits'].vb_build, v) for v in ALL] + [(core_for, t) for t in m['eng_avail'].CROSS] + [(m['eng_emu'].emu_build, c) for c in m['eng_emu'].CONFIGS])
        for t in m['eng_miri'].TARGETS:
            warm((m['eng_miri'].warm, t))
        sys.exit(0)
    if a[0] == 'replay':
        sys.exit(replay(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(a[0], tier))
