#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
R = 'TLA+ specification checked with TLC; TLC-generated records of whole texts replayed into the real code'
D = 'TLC judges the real code\'s recorded answers for every scalar value against the specification'
P = 'TLA+ pull machine checked with TLC; TLC-generated call profiles replayed, recorded API histories validated by TLC'
TECH = dict(C01=R + '; ' + D, C02=R + '; ' + D, C03=R, C04=R + '; ' + D, C05=R + '; ' + D, C06=R + '; ' + D, C07=R + '; ' + D, C08=R, C09=P, C10=P, C11=P, C12=R,
            C13=D, C14='TLC judges the recorded set of composing pairs against the specification\'s primary composites', C15=D, C16=R + '; ' + D,
            C17='TLC enumerates interleavings of adapter machines, replayed on one and several threads; recorded histories validated by TLC; results compared across orders of use',
            C18='TLC-generated records replayed into six build configurations, results compared',
            C19='the generator is run on synthetic character databases; TLC judges the crate built from its tables against the specification instantiated with the same database',
            C20=R, C21=R,
            C22='TLA+ pull machine over endless sources checked with TLC (liveness, bounds); TLC-generated profiles replayed, memory accounted')
NOTE = dict(
    default='Exhaustive within the stated bounds (alphabets and lengths in the evidence), sampled beyond; trusts TLC, the harness and the Unicode 16.0 data in spec/data.',
    dump='Exhaustive over all scalar values; trusts TLC, the harness and the Unicode 16.0 data in spec/data.')
checks = []
have = open(os.path.join(ROOT, 'tools', 'check.py')).read()
for p in props:
    i = p['id']
    if 'def %s(' % i.lower() not in have: continue
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py run ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py run ' + i,
                       technique=TECH[i], level='model_checking', level_note=NOTE['dump' if i in ('C13', 'C15') else 'default']))
done = {c['property'] for c in checks}
m = dict(version=1, setup_cmd='python3 tools/check.py setup', checks=checks,
         not_applicable=[dict(property=p['id'], reason='its check is still being built') for p in props if p['id'] not in done],
         notes='TLA+ with TLC. No hooks in /repo: everything is observed through the public API. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
