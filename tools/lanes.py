#!/usr/bin/env python3
"""Development aid: many patches against many checks at once, in scratch copies of /verif and /repo.

lanes.py [-n LANES] [-a | -c Cxx,Cyy] PATCH-DIR-OR-FILE...   (a directory of seeded/: its own property's check unless -a)
Copies leave out what checks only the specification itself (the TLC runs of Run.spec)."""
import concurrent.futures as cf
import json, os, queue, shutil, subprocess, sys, time
W = '/tmp/lanes'
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def lane(k):
    d = '%s/%d' % (W, k); v, r = d + '/verif', d + '/repo'
    os.makedirs(d, exist_ok=True)
    sh('rsync', '-a', '--delete', '--exclude', 'build/target', '--exclude', 'build/gen.*', '--exclude', 'seeded', '--exclude', '.git', '--exclude', 'evidence', '/verif/', v) if shutil.which('rsync') else copy(v)
    sh('rm', '-rf', r); sh('cp', '-a', '/repo', r); sh('git', '-C', r, 'checkout', '-q', '--', '.')
    p = v + '/tools/check.py'; s = open(p).read()
    s = s.replace("REPO = '/repo'", "REPO = '%s'" % r).replace("        d = model(name, module, consts, invs, props, **kw)\n        if not d['ok']: raise Broken('the spec", "        return\n        if not d['ok']: raise Broken('the spec").replace("'\"/repo\"'", "'\"%s\"'" % r)
    s = s.replace("with open(os.path.join(CORPUS, name + '.lock'), 'w') as lock", "with open(os.path.join(CORPUS, name + '.lock'), 'w') as lock")
    # the corpora's key depends on paths
    s = s.replace("h.update(f.encode() + b'\\0'", "h.update(f.replace(ROOT, '/verif').encode() + b'\\0'")
    open(p, 'w').write(s)
    for f in (v + '/harness/Cargo.toml',):
        t = open(f).read(); open(f, 'w').write(t.replace('"/repo"', '"%s"' % r))
    return d
def copy(v):
    keep = os.path.join(v, 'build/target')
    if os.path.exists(v):
        for x in os.listdir(v):
            if x != 'build': sh('rm', '-rf', os.path.join(v, x))
        sh('rm', '-rf', v + '/build/corpus')
    os.makedirs(v + '/build', exist_ok=True)
    for x in os.listdir('/verif'):
        if x not in ('build', 'seeded', '.git', 'evidence', 'refactors'): sh('cp', '-a', '/verif/' + x, v + '/' + x)
    sh('cp', '-a', '/verif/build/corpus', v + '/build/corpus')
def main():
    a = sys.argv[1:]; n = 4; checks = None
    if '-n' in a: i = a.index('-n'); n = int(a[i + 1]); del a[i:i + 2]
    allc = ['C%02d' % i for i in range(1, 22)]
    if '-a' in a: a.remove('-a'); checks = allc
    if '-c' in a: i = a.index('-c'); checks = a[i + 1].split(','); del a[i:i + 2]
    free = queue.Queue()
    with cf.ThreadPoolExecutor(n) as ex:
        for d in ex.map(lane, range(n)): free.put(d)
    jobs = []
    for x in a:
        if os.path.isdir(x): jobs.append((os.path.basename(x), x + '/patch.diff', checks or [json.load(open(x + '/meta.json'))['property']]))
        elif x == 'none': jobs.append((x, None, checks or allc))
        else: jobs.append((os.path.basename(x), x, checks or allc))
    def one(j):
        name, patch, cs = j; d = free.get()
        try:
            if patch:
                p = sh('git', '-C', d + '/repo', 'apply', patch)
                if p.returncode: return print(name, 'DOES NOT APPLY', p.stdout)
            for c in cs:
                t = time.time()
                p = sh(sys.executable, d + '/verif/tools/check.py', 'run', c)
                print(name, c, 'rc=%d' % p.returncode, '%.0fs' % (time.time() - t), '| ' + ' '.join(p.stdout.split('\n')[0:1])[:200] if p.returncode else '', flush=True)
                if p.returncode not in (0, 1): print(p.stdout[-1500:], flush=True)
        finally:
            sh('git', '-C', d + '/repo', 'checkout', '-q', '--', '.'); free.put(d)
    with cf.ThreadPoolExecutor(n) as ex: list(ex.map(one, jobs))
main()
