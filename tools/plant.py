#!/usr/bin/env python3
"""Writes and confirms planted bugs: plant.py BUGS.py [ids...]
BUGS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)].
Works in the scratch copy /tmp/plant/repo (with build.sh, test.sh beside it)."""
import sys, os, json, subprocess, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = '/tmp/plant'; R = P + '/repo'
sh = lambda c, cwd=R, t=900: subprocess.run(c, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bugs = runpy.run_path(sys.argv[1])['BUGS']
want = sys.argv[2:]
res = {}
for b in bugs:
    if want and b['id'] not in want: continue
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    sh('git checkout -q -- .')
    bad = None
    for f, old, new in b['edits']:
        s = open(f'{R}/{f}').read()
        if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches of {old[:60]!r}'; break
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
    if bad: print(b['id'], 'EDIT', bad); sh('git checkout -q -- .'); continue
    open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
    lib = b.get('lib', 'seedlib')
    for f in os.listdir(f'{V}/tools/{lib}'): shutil.copy(f'{V}/tools/{lib}/{f}', d)
    for f in b.get('files', []): shutil.copy(f, d)
    os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in b: open(d + '/' + b.get('demofile', 'demo.rs'), 'w').write(b['demo'].lstrip('\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    out = []
    log = open(f"{P}/{b['id']}.log", 'w')
    sh('git checkout -q -- .')
    r = sh(f'bash {d}/demo.sh'); log.write('CLEAN\n' + r.stdout); out.append(f'clean={r.returncode}')
    sh(f'git apply {d}/patch.diff')
    r = sh(f'bash {P}/build.sh'); log.write('BUILD\n' + r.stdout); out.append(f'build={r.returncode}')
    r = sh(f'bash {P}/test.sh {P}/out.json'); log.write('TEST\n' + r.stdout)
    try: miss = stable - set(json.load(open(P + '/out.json'))['passed'])
    except Exception as e: miss = {repr(e)}
    out.append(f'lost={sorted(miss) if miss else 0}')
    r = sh(f'bash {d}/demo.sh'); log.write('PATCHED\n' + r.stdout); out.append(f'patched={r.returncode}')
    sh('git checkout -q -- .'); log.close()
    good = out[0] == 'clean=0' and out[1] == 'build=0' and not miss and out[3] != 'patched=0'
    print(b['id'], 'OK' if good else 'BAD', *out, flush=True)
