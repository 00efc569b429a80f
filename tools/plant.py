#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... (in the scratch copy /tmp/plant/repo, which it makes).
A bug is confirmed when its patch applies and builds, the stable tests pass with it, and its demonstration
succeeds without it and fails with it."""
import json, os, shutil, subprocess, sys
W = '/tmp/plant'; R = W + '/repo'; SEED = '/verif/seeded'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R): sh('cp', '-a', '/repo', R)
    for n in ('test', 'build'): open('%s/%s.sh' % (W, n), 'w').write(open('/opt/vp/%s.sh' % n).read().replace('/repo', R))
    sh('git', '-C', R, 'checkout', '-q', '--', '.')
def demo(i):
    d = W + '/demo'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(SEED, i), d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.remove(os.path.join(d, f))
    try: return sh('bash', d + '/demo.sh', cwd=R, timeout=300)
    finally: shutil.rmtree(d)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad = []
for i in sys.argv[1:]:
    fresh()
    a = demo(i)
    p = sh('git', '-C', R, 'apply', os.path.join(SEED, i, 'patch.diff'))
    if p.returncode: print(i, 'DOES NOT APPLY', p.stdout); bad.append(i); continue
    b = sh('bash', W + '/build.sh')
    sh('bash', W + '/test.sh', W + '/out.json')
    r = json.load(open(W + '/out.json')) if os.path.exists(W + '/out.json') else {}
    passed = set(r.get('passed', r.get('pass', [])))
    c = demo(i)
    good = a.returncode == 0 and b.returncode == 0 and stable <= passed and c.returncode != 0
    if not good: bad.append(i)
    print(i, 'confirmed' if good else 'NOT CONFIRMED', dict(demo_unpatched=a.returncode, build=b.returncode, tests_missing=sorted(stable - passed)[:4], demo_patched=c.returncode),
          '' if good else (a.stdout[-500:] if a.returncode else b.stdout[-800:] if b.returncode else ''), flush=True)
fresh()
sys.exit(bool(bad))
