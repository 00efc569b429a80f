"""Runs TLC on a module of /verif/spec with a generated or committed configuration."""
import os, re, subprocess, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcError(Exception): pass

def run(module, cfg, env=None, workers=8, heap='8g', timeout=1500, extra=(), ucd=None, log=None, fp=None):
    """-> dict(ok, states, distinct, depth, violated, output, secs, cover).  ok=False only for a violated invariant or
    property; anything else raises TlcError."""
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix='tlc.', dir=BUILD)
    e = dict(os.environ)
    e['UCD_FILE'] = ucd or os.path.join(SPEC, 'data', 'ucd16.json')
    e.update(env or {})
    if not os.path.isabs(cfg): cfg = os.path.join(SPEC, 'cfg', cfg)
    cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-cleanup', '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timed out on %s after %ds\n%s' % (module, timeout, (x.stdout or b'')[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = '\n'.join(l for l in out.splitlines() if not l.startswith(('Parsing file', 'Semantic processing', 'Linting of')))
    if log: open(log, 'w').write(out)
    m = re.findall(r'(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found', out)
    n = lambda x: int(x.replace(',', ''))
    d = dict(module=module, states=n(m[-1][0]) if m else 0, distinct=n(m[-1][1]) if m else 0, secs=round(time.time() - t, 1), output=out)
    x = re.search(r'depth of the complete state graph search is (\d+)', out)
    d['depth'] = int(x.group(1)) if x else 0
    v = re.search(r'Invariant (\w+) is violated|The invariant of (\w+) is equal to FALSE|Action property (\w+) is violated|Temporal properties were violated|Invariant (\w+) is', out)
    if rc == 0 and 'Model checking completed. No error has been found' in out:
        d['ok'], d['violated'] = True, None
    elif v and (rc in (12, 13) or 'is equal to FALSE' in out):
        d['ok'], d['violated'] = False, next((g for g in v.groups() if g), 'temporal')
    else:
        raise TlcError('TLC failed (%d) on %s\n%s' % (rc, module, out[-4000:]))
    return d

if __name__ == '__main__':
    import sys
    env = dict(a.split('=', 1) for a in sys.argv[3:] if '=' in a)
    d = run(sys.argv[1], sys.argv[2], env)
    print(d['output'][-3000:] if not d['ok'] else '', {k: d[k] for k in d if k != 'output'})
