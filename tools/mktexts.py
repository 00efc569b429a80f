#!/usr/bin/env python3
"""Texts for the specification to judge: every character that is not inert in several contexts, every
primary composite's pair, long combining sequences, stream-safe limits, Hangul, random texts.
Only chooses inputs; what must come out is computed by TLC (spec/Oracle.tla).

With "frames" and "likes": texts with the placeholders U+E000 and U+E001 (spec/Uniform.tla).

usage: mktexts.py OUT.json SEED SCALE [core|full|frames|likes]"""
import json, random, sys
out, seed, scale = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
core = len(sys.argv) > 4 and sys.argv[4] == 'core'
import os
d = json.load(open(os.environ.get('UCD_FILE') or os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data', 'ucd16.json')))
R = random.Random(seed)
canon = {r[0]: r[1:] for r in d['canon']}
compat = {r[0]: r[1:] for r in d['compat']}
ccc = {r[0]: r[1] for r in d['ccc']}
variants = {r[0]: r[1:] for r in d['variants']}
excl = set(d['excl'])
scalar = lambda c: 0 <= c <= 0x10ffff and not 0xd800 <= c <= 0xdfff
pairs = [(m[0], m[1], k) for k, m in canon.items() if len(m) == 2]
seconds = sorted({p[1] for p in pairs} | set(range(0x1161, 0x1176)) | set(range(0x11a8, 0x11c3)))
firsts = sorted({p[0] for p in pairs})
active = sorted(set(canon) | set(compat) | set(ccc) | set(firsts) | set(seconds) | set(variants))
byccc = {}
for c, k in ccc.items(): byccc.setdefault(k, []).append(c)
classes = sorted(byccc)
nonstarters = sorted(ccc)
T = []
add = lambda *cs: T.append([c for c in cs if scalar(c)])
rc = R.choice

groups = {}
def like(c, m):
    if m not in groups:
        groups[m] = {}
        for x in active: groups[m].setdefault(x & m, []).append(x)
    return groups[m][c & m]
def write():
    seen, U = set(), []
    for t in T:
        k = tuple(t)
        if k not in seen: seen.add(k); U.append(t)
    R.shuffle(U)
    json.dump(U, open(out, 'w'), separators=(',', ':'))
    print(len(U), 'texts', sum(map(len, U)), 'characters')

# frames: surroundings for a character that is not active itself
X, Y = 0xe000, 0xe001
def frames():
    runs = [[0x300] * 30, [0x300] * 31, [0x301] * 29 + [0x344], [0x323] * 12, [0x345, 0x301, 0x323, 0x315]]
    front = [[], [0x61], [0x61, 0x301], [0x65, 0x302], [0x301], [0x323], [0x344], [0x1100], [0xac00], [0xac01], [0x1100, 0x1161], [0xdd9], [0xf71, 0xf72],
             [0xff9e], [0xf900], [0xcc6, 0xcc2], [0x34f], [0x1e69], [0x212b], [0xfb01], [0xfdfa], [0x304b], [0x1109a], [0x3b1, 0x313], [0x16d67], [0x1d15e], [0x2f800]] + runs
    back = [[], [0x301], [0x323, 0x301], [0x327], [0x1161], [0x11a8], [0xdca], [0xdcf], [0x344], [0xf71], [0xff9e], [0xfe00], [0xf900], [0xe9], [0x3099], [0x345],
            [0x110ba], [0x16d67], [0x61], [0xac00], [0x34f, 0x301], [0xfb1d], [0x2f800], [0xfdfa]] + runs
    for f in front:
        for b in back: T.append(f + [X] + b)
        T.append(f + [X, Y]); T.append(f + [X, X]); T.append([X] + f + [X]); T.append([X] + f + [Y]); T.append([X] + f + [Y, 0x301]); T.append([0x61, X] + f + [Y, 0x301, X])
    for b in back: T.append([X, Y] + b); T.append([X, Y, X] + b); T.append([X] + b + [Y] + b); T.append([Y, 0x41, X] + b)
    write()
# around every active character; the harness fills these with characters that resemble it
def likes():
    for c in active + list(range(0x1100, 0x1113)) + [rc(range(0xac00, 0xd7a4)) for _ in range(300)]:
        T.append([X, c]); T.append([c, X]); T.append([c, X, c, Y])
    write()
if len(sys.argv) > 4 and sys.argv[4] == 'frames':
    frames()
    sys.exit()
if len(sys.argv) > 4 and sys.argv[4] == 'likes':
    likes()
    sys.exit()

# every active character in contexts
for c in active:
    add(c)
    add(0x61, c); add(c, 0x301); add(c, 0x323, 0x301); add(0x61, 0x301, c)
    add(0x315, c, 0x61); add(c, c); add(0x61, 0x345, c, 0x300, 0x62)
    add(rc(active), c, rc(active)); add(rc(firsts), c, rc(seconds)); add(rc(nonstarters), c, rc(nonstarters))
# neighbours of active characters
near = sorted({c + k for c in active for k in (-1, 1)} - set(active))
for c in near:
    if core and R.random() > .25: continue
    add(c); add(0x65, c, 0x301)
# primary composites and excluded pairs
for a, b, k in pairs:
    add(a, b); add(k, b)
    add(a, 0x334, b); add(a, 0x301, b); add(a, b, rc(seconds)); add(a, b, b); add(a, 0x345, b)
    add(a, 0x62, b); add(rc(firsts), a, b, rc(nonstarters)); add(a, rc(byccc[rc(classes)]), b); add(b, a)
    add(a, b & 0xffff, b | 0x10000); add(a | 0x10000, b); add(a & 0xffff, b)
    # equivalents: marks of different classes in both orders
    m = rc(byccc[rc(classes)]); n = rc(byccc[rc(classes)])
    add(k, m, n); add(k, n, m); add(a, m, b, n); add(a, n, b, m)
# random short texts of active characters
for _ in range(int(30000 * scale)):
    add(*[rc(active) for _ in range(R.randint(2, 9))])
def syllabic(n):
    t = []
    while len(t) < n:
        t.append(rc(firsts) if R.random() < .6 else rc(active) if R.random() < .7 else R.randint(0x20, 0x17f))
        for _ in range(R.choice((0, 0, 1, 1, 2, 3, 5))):
            t.append(rc(seconds) if R.random() < .5 else rc(byccc[rc(classes)]))
    return t
for _ in range(int(20000 * scale)): add(*syllabic(R.randint(1, 14)))
for _ in range(int(600 * scale)): add(*syllabic(R.randint(40, 160)))
# Hangul
J = list(range(0x10ff, 0x1115)) + list(range(0x1160, 0x1178)) + list(range(0x11a6, 0x11c5))
S = lambda: R.choice((0xac00 + 28 * R.randint(0, 398), R.randint(0xac00, 0xd7a3), R.randint(0xabff, 0xd7a5), 0xd7a3, 0xac00))
for _ in range(int(15000 * scale)):
    add(*[R.choice((rc(J), rc(J), S(), rc((0x1100, 0x1161, 0x11a8, 0x61, 0x301, 0x3099)))) for _ in range(R.randint(1, 6))])
for c in range(0xabfe, 0xd7b0):
    add(c, rc(J))
    if not core or c % 5 == seed % 5: add(c); add(rc(J), c, rc(J)); add(rc(nonstarters), c, rc(nonstarters), 0x11a8 + c % 27)
for l in range(0x1100, 0x1113):
    for v in range(0x1161, 0x1176):
        add(l, v); add(l, v, 0x11a8 + R.randrange(27)); add(l, v, rc(nonstarters), 0x11a8 + R.randrange(27)); add(0x1100 + R.randrange(19), l, v, v, 0x11a7)
# any scalars
for _ in range(int(10000 * scale)):
    t = []
    for _ in range(R.randint(1, 5)):
        k = R.random()
        t.append(R.randint(0, 0x10ffff) if k < .3 else R.randint(0, 0x2fff) if k < .6 else R.randint(0x10000, 0x1ffff) if k < .8 else
                 rc((0, 0x7f, 0x80, 0xff, 0x100, 0x300, 0x2ff, 0xffff, 0xfffe, 0xfdd0, 0xe000, 0xf8ff, 0xd7ff, 0x10000, 0x10ffff, 0xe0001, 0x34f, 0xfe0f, 0x200d)))
    add(*t)
# long combining sequences: classes repeated and shuffled so that an unstable or partial sort shows
multi = [c for c in active if len(compat.get(c, canon.get(c, []))) > 1]
for n in [5, 9, 17, 18, 19, 20, 21, 22, 25, 29, 30, 31, 32, 33, 34, 40, 47, 64, 65, 70, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300] * max(1, int(5 * scale)):
    ks = R.sample(classes, R.randint(1, 6))
    pool = [c for k in ks for c in byccc[k][:12]]
    t = [rc(pool) for _ in range(n)]
    add(*t)
    if R.random() < .6: t = [rc(firsts)] + t
    if R.random() < .5: t += [rc(active)]
    if R.random() < .3: t += [rc(nonstarters) for _ in range(R.randint(0, 20))]
    if R.random() < .4: t.sort(key=lambda c: ccc.get(c, 0))
    add(*t)
for n in [500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1500, 2100][:2 if core else 11]:
    pool = [c for k in R.sample(classes, 4) for c in byccc[k][:20]]
    add(*([0x61] + [rc(pool) for _ in range(n)] + [0x65, 0x301]))
    add(*[rc(pool) for _ in range(n)])
# around the stream-safe limit
led = [c for c in active if ccc.get(c, 0) or (compat.get(c) and ccc.get(compat[c][0], 0))]
trail = [c for c in active if c in canon or c in compat]
special = [0x344, 0xf73, 0xf75, 0xf81, 0xff9e, 0xff9f, 0x34f, 0x1fed, 0x390, 0x1d160, 0xfb1d, 0xfc5e, 0xfe70, 0x3099, 0x1e14, 0xf77, 0xac01, 0x11a8, 0x3250, 0x309b, 0x307, 0x4e00]
for _ in range(int(6000 * scale)):
    n = R.randint(24, 34)
    t = [rc((0x61, rc(trail), rc(special), 0xac00))] if R.random() < .8 else []
    while n > 0:
        if R.random() < .7:
            k = R.randint(1, n); t += [rc(nonstarters)] * k if R.random() < .5 else [rc(nonstarters) for _ in range(k)]
            n -= k
        else:
            t.append(rc((rc(led), rc(special)))); n -= 1
    t += [rc((rc(led), rc(special), rc(trail), 0x61, rc(nonstarters))) for _ in range(R.randint(0, 4))]
    if R.random() < .3: t += [rc(nonstarters) for _ in range(R.randint(25, 34))] + [rc(special)]
    if R.random() < .4:   # canonically ordered, so that only the length is at fault
        u, run = [], []
        for c in t:
            if ccc.get(c, 0): run.append(c)
            else: u += sorted(run, key=lambda x: ccc[x]) + [c]; run = []
        t = u + sorted(run, key=lambda x: ccc[x])
    add(*t)
for c in special + [rc(trail) for _ in range(200 if core else 3000)] + led:
    n = R.randint(26, 31)
    if not core or R.random() < .2:
        add(c, *([0x300] * n), c); add(*([0x41] + [0x301] * n), c, 0x301, 0x301)
# ideograph variants
V = sorted(variants)
for c in V:
    add(c, rc(V)); add(0x61, c, 0x301)
    if not core: add(c, variants[c][1]); add(variants[c][0], variants[c][1], c); add(0xac00, c, 0x11a8); add(rc(active), c, rc(active), rc(V))
# characters alike in their low bits
for _ in range(int(20000 * scale)):
    m = rc((0x3f, 0x7f, 0xff, 0x3ff, 0xfff, 0xffff))
    c = rc(active)
    l = like(c, m)
    add(*[rc(l) if R.random() < .7 else rc((0x61, 0x301, 0x1161, rc(l) ^ rc((1 << 16, 1 << 8, 1 << 12)))) for _ in range(R.randint(2, 6))])
write()
