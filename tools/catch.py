#!/usr/bin/env python3
"""catch.py [--all] [ids...]: applies each planted bug to /repo, runs the check of its
property (--all: every check) and undoes it."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '--all' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
checks = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
sh = lambda c: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
assert not sh('git -C /repo status --porcelain').stdout
for i in ids:
    own = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    r = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stdout); continue
    try:
        caught, t0, first = [], time.time(), ''
        for p in (checks if every else [own]):
            if p not in checks: continue
            r = sh(f'cd {V} && ./check {p} --tier quick')
            if r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout:
                caught.append(p)
                if p == own: first = r.stdout.split('\n')[1][:160]
            elif r.returncode: caught.append(f'{p}?{r.returncode}'); first = r.stdout[-300:]
        print(i, own, 'CAUGHT' if own in caught else 'MISSED', ' '.join(caught), f'{time.time()-t0:.0f}s', first, flush=True)
    finally:
        sh('git -C /repo checkout -- .')
