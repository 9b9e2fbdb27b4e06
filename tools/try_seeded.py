#!/usr/bin/env python3
"""tools/try_seeded.py [id...]: applies each seeded change to /repo, runs the quick check of its property (or all with --all), undoes it."""
import json, os, subprocess, sys, time
R = '/verif/seeded'
args = sys.argv[1:]
allp = '--all' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(R))
for i in ids:
    p = json.load(open(f'{R}/{i}/meta.json'))['property']
    claimed = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    subprocess.run(['git', '-C', '/repo', 'apply', f'{R}/{i}/patch.diff'], check=True)
    try:
        for q in (claimed if allp else [p]):
            t = time.time()
            r = subprocess.run(['python3', '/verif/check.py', q, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            print(i, q, 'rc', r.returncode, f'{time.time()-t:.0f}s', [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1], r.stderr.strip()[:200].replace('\n', ' | '), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
