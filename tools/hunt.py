#!/usr/bin/env python3
"""Runs checks against planted bugs: hunt.py [-a] [ID...]; -a: every check, not only the one of its property."""
import json, os, subprocess, sys
args = sys.argv[1:]; every = '-a' in args; ids = [a for a in args if a != '-a'] or sorted(os.listdir('/verif/seeded'))
checks = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json')).get('checks', [])]
missed = 0
for i in ids:
    d = '/verif/seeded/' + i
    pid = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        res = {}
        for c in (checks if every else [pid]):
            r = subprocess.run([sys.executable, '/verif/tools/check.py', 'run', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[c] = r.returncode
            if c == pid: out = r.stdout
    finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    caught = res[pid] == 1 and 'VIOLATION property=%s ' % pid in out
    missed += not caught
    print(i, pid, 'caught' if caught else 'MISSED', 'by ' + ' '.join(c for c in res if res[c] == 1), 'no answer: ' + ' '.join(c for c in res if res[c] not in (0, 1)) if any(v not in (0, 1) for v in res.values()) else '',
          '' if not caught else '| ' + out.strip().splitlines()[0][:150], flush=True)
    if not caught: print(out[-600:])
print('missed', missed)
