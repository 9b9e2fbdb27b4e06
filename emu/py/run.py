#!/usr/bin/env python3
"""run.py ARCH ELF-ARCHIVE DISASSEMBLY PART PROPS SEED CASES SECONDS OUT: interprets generated cases over one build."""
import importlib, json, os, random, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import checks, weak
Verdict = checks.Verdict

def arch(spec):
    p = spec.split(':')
    m = importlib.import_module(p[0])
    return m.Arch(*[int(x) if x.lstrip('-').isdigit() else x for x in p[1:]])

def load(spec, lib, dis):
    el = [b for n, b in ar_members(open(lib, 'rb').read()) if n.endswith('.o')]
    return checks.World(arch(spec), Elf(el[0]), open(dis).read())

PARTS = dict(checks.PARTS, weak7=(weak.gen7, weak.run), weak8=(weak.gen8, weak.run))
PARTS.update({'pair_' + k: checks.paired(*PARTS[k]) for k in ('seq', 'conc', 'weak7', 'weak8')})
def one(spec, lib, dis, part, props, case):
    """one recorded case"""
    w = load(spec, lib, dis)
    msg = None
    try:
        PARTS[part][1](w, json.load(open(case)))
    except (Unmodelled, KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError):
        pass
    except Verdict as v:
        if set(v.props) & set(props.split(',')):
            msg = v.msg
    print(json.dumps(dict(message=msg)))

def main():
    if sys.argv[1] == 'case':
        return one(*sys.argv[2:])
    spec, lib, dis, part, props, seed, cases, secs, out = sys.argv[1:]
    props = props.split(',')
    w = load(spec, lib, dis)
    res = dict(evaluations=0, distinct_nontrivial=0, classes={}, samples=[], failures=[], unmodelled=[], functions=len(w.fns))
    names = sorted(w.fns)
    t0 = time.time()
    ok = []
    for n in names:
        f = w.fns[n]
        # instructions this interpreter has no meaning for, reachable or not: the function is left out
        bad = [o for o, _ in f.prog.values() if o.__class__ is str]
        if bad:
            res['unmodelled'].append(f'{n}: {bad[0]}')
        else:
            ok.append(n)
    res['modelled'] = len(ok)
    rng = random.Random(f'{seed}-{spec}-{part}')
    if part in PARTS:
        gen, runner = PARTS[part]
        use = ok
        if part == 'twice':
            use = [n for n in ok if w.fns[n].p in ('', 'p', 'q', 'c') and w.fns[n].op[0] != 'f']
        elif part.startswith('pair_'):
            use = [n for n in ok if not w.fns[n].p and 'n' + n in ok]
        elif part not in ('seq', 'kernel'):
            use = [n for n in ok if not w.fns[n].p]
        if 'C02' in props and 'C01' not in props and part == 'seq':
            use = [n for n in use if w.fns[n].op in ('cas', 'weak')]
        if props == ['C10']:
            use = [n for n in use if w.fns[n].op[0] == 'f'] if part == 'seq' else use
        if props == ['C07'] and part == 'seq':
            use = [n for n in use if w.fns[n].p and w.fns[n].p in 'qc']
        if props == ['C13']:
            use = [n for n in use if w.fns[n].p not in ('', 'n')] * 3 + use
        seen = set()
        while use and res['evaluations'] < int(cases) and time.time() - t0 < float(secs):
            c = gen(rng, w, use)
            if c is None:
                break
            res['evaluations'] += 1
            try:
                nt = runner(w, c)
            except Unmodelled as e:
                res['unmodelled'].append(str(e)[:200])
                continue
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as e:
                # the interpreter's own trouble with code it has not met: no verdict
                res['unmodelled'].append(f'internal {type(e).__name__} {e}: {c.get("fn") or c["threads"]}'[:200])
                continue
            except Verdict as v:
                if set(v.props) & set(props):
                    if os.environ.get('EMU_ALL'):
                        k = re.sub(r'0x[0-9a-f]+|[0-9]{2,}', '', v.msg.split(':')[0][:40] + v.msg[-60:])
                        if k not in res['classes']:
                            print(v.msg[:300])
                        res['classes'][k] = res['classes'].get(k, 0) + 1
                        continue
                    c, msg = checks.shrink(w, c, runner, props)
                    res['failures'].append(dict(case=c, message=msg or v.msg))
                    break
                nt = False
            k = c.get('fn') or ' | '.join(','.join(o.get('fn', 'plain') for o in ops) for ops in c['threads'])
            key = hash(json.dumps(c, sort_keys=True, default=str))
            if nt and key not in seen:
                seen.add(key)
                res['distinct_nontrivial'] += 1
            cl = c['role'] if 'role' in c else f"version {c['kver']}" if 'kver' in c else k.split('_')[0] if part == 'seq' else 'inside' if nt else 'whole'
            res['classes'][cl] = res['classes'].get(cl, 0) + 1
            if len(res['samples']) < 2 and nt:
                res['samples'].append(dict(case=c, note=k))
    res['unmodelled'] = res['unmodelled'][:20]
    res['seconds'] = time.time() - t0
    json.dump(res, open(out, 'w'), default=str)

if __name__ == '__main__':
    main()
