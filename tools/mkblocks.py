#!/usr/bin/env python3
"""Block texts - pieces repeated up to a hundred thousand times - for the specification to judge (spec/Giants.tla).

usage: mkblocks.py OUT.json SEED COUNT LIMIT(characters of a text)"""
import json, os, random, sys
out, seed, count, limit = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
d = json.load(open(os.environ.get('UCD_FILE') or os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'ucd16.json')))
R = random.Random(seed); rc = R.choice
canon = {r[0]: r[1:] for r in d['canon']}
compat = {r[0]: r[1:] for r in d['compat']}
ccc = {r[0]: r[1] for r in d['ccc']}
variants = sorted(r[0] for r in d['variants'])
firsts = sorted({m[0] for m in canon.values() if len(m) == 2})
seconds = sorted({m[1] for m in canon.values() if len(m) == 2})
marks = sorted(ccc); bycls = {}
for c, k in ccc.items(): bycls.setdefault(k, []).append(c)
classes = sorted(bycls)
active = sorted(set(canon) | set(compat) | set(ccc) | set(firsts) | set(seconds))
led = [0x344, 0xf73, 0xf75, 0xf81, 0xff9e, 0xff9f, 0x1d160, 0xfb1d, 0x309b, 0xfc5e]
mark = lambda: rc((rc(marks), rc(bycls[rc(classes)]), rc(seconds), 0x301, 0x323))
def piece():
    k = R.random()
    if k < .35: return [mark()]
    if k < .45: return [mark() for _ in range(R.randint(2, 5))]
    if k < .53: return [rc(led)]
    if k < .58: return [rc((0x61, 0x41, 0x4e00, rc(firsts)))]
    if k < .66: return [rc(active)]
    if k < .72: return [rc((0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0xd7a3)) for _ in range(R.randint(1, 4))]
    if k < .76: return [rc((0xdd9, 0xdca, 0xdcf, 0x9c7, 0x9be, 0x16d67, 0x16d63, 0x11099, 0x110ba, 0x1b05, 0x1b35)) for _ in range(R.randint(1, 4))]
    if k < .80: return [rc(variants)]
    if k < .90: return [rc(firsts)] + [rc((mark(), rc(seconds))) for _ in range(R.randint(1, 4))]
    if k < .95: return [mark() for _ in range(R.randint(1, 2))] + [rc(firsts)] + [mark() for _ in range(R.randint(0, 2))]
    return [rc((0x34f, 0xfdfa, 0x3300, 0x1f82, 0x344, 0x390))]
small, mid, big = [1, 1, 1, 2, 3, 5, 15, 29, 30, 31, 32], [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097], \
                  [8192, 10000, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70000, 100000]
full = lambda c: [c] if c not in canon and c not in compat else [y for x in (canon.get(c) or compat[c]) for y in full(x)]
T = []
while len(T) < count:
    n = R.randint(1, 6); t = []
    sizes = [rc(small) for _ in range(n)]
    for _ in range(R.randint(1, 2)): sizes[R.randrange(n)] = rc(mid)
    if len(T) % 3 == 0: sizes[R.randrange(n)] = rc(big)
    for k in sizes: t.append([piece(), k])
    if R.random() < .3: t.insert(0, [[rc(firsts)], 1])
    if R.random() < .3: t.append([[rc((0x61, rc(active)))], 1])
    while sum(k * sum(len(full(c)) for c in w) for w, k in t) > limit:
        i = max(range(len(t)), key=lambda i: t[i][1]); t[i][1] = max(1, t[i][1] * 2 // 3)
    T.append(t)
# the limits of counters, hit exactly, by one kind of character each
for n in (255, 256, 257, 65535, 65536, 65537):
    for w in ([0x301], [0x323], [0x344], [0xff9e], [0x11a8], [0x1161], [0x61], [0xac00], [0x345], [0x3099], [0xf900], [0xdca]):
        if n < 1000 or R.random() < .34:
            T.append([[[rc((0x61, 0x1e63, 0x304b, 0x1100, 0xdd9, 0xac00))], 1], [w, n], [[rc((0x323, 0x301, 0x11a8, 0xdcf, 0x61))], 1]])
# pages: what begins exactly at a power of two (in characters or bytes), and combines with what is before it
for p in [1 << k for k in range(3, 17)]:
    for base, m in ((0x65, 0x301), (0x3c, 0x338), (0xe9, 0x323), (0x3b1, 0x345), (0x304b, 0x3099), (0xac00, 0x11a8), (0x1100, 0x1161), (0x1099b, 0x301), (0x11099, 0x110ba), (0x65, 0x344), (0x61, 0xff9e), (0x61, 0xf900)):
        w = len(chr(base).encode())
        ns = {p, p // w} if p <= 4096 or base == 0x65 else {rc((p, p // w, p // w + 1))}
        if p <= 4096: ns |= {rc((p - 1, p + 1)), p // w + 1}
        for n in sorted(ns):
            if 1 < n <= limit: T.append([[[base], n], [[m], 1]] + ([[[rc((0x61, 0x301, base))], rc((1, 1, 7, p))]] if R.random() < .5 else []))
json.dump(T, open(out, 'w'), separators=(',', ':'))
