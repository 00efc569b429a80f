"""Character databases for the table generator: the supported version's, and ones a later version might
bring (characters, mappings, classes, exclusions and variants added, changed and removed), written out in
the formats of the Unicode Character Database."""
import bisect, copy, json, os, random

def load(path): return json.load(open(path))

def later(base, seed):
    """A database derived from base: what a different version's could look like."""
    R = random.Random(seed)
    d = copy.deepcopy(base)
    canon = {r[0]: r[1:] for r in d['canon']}
    compat = {r[0]: r[1:] for r in d['compat']}
    ccc = {r[0]: r[1] for r in d['ccc']}
    variants = {r[0]: r[1:] for r in d['variants']}
    excl = set(d['excl'])
    assigned = [list(r) for r in d['assigned']]
    marks = set(c for a, b in d['marks'] for c in range(a, b + 1))
    starts = [r[0] for r in assigned]
    def is_assigned(c):
        i = bisect.bisect_right(starts, c) - 1
        return i >= 0 and assigned[i][1] >= c
    hangul = lambda c: 0xac00 <= c < 0xac00 + 11172 or 0x1100 <= c < 0x1200
    free_bmp = [c for c in range(0x300, 0xffff) if not is_assigned(c) and not 0xd800 <= c <= 0xf8ff and not 0xfdd0 <= c <= 0xfdef]
    free_astral = [c for c in list(range(0x10000, 0x20000)) + list(range(0x2fa20, 0x2fd00)) + list(range(0xe0200, 0xe0800)) if not is_assigned(c) and c & 0xffff < 0xfffe]
    R.shuffle(free_bmp); R.shuffle(free_astral)
    free = lambda: (free_bmp if R.random() < .5 else free_astral).pop()
    fresh = set()
    used = set(x for m in list(canon.values()) + list(compat.values()) for x in m)
    firsts = {m[0] for m in canon.values() if len(m) == 2}
    protected = {0x300, 0x301, 0x315, 0x323, 0x34f}
    excluded = lambda c: c in excl or len(canon[c]) == 1 or ccc.get(c) or ccc.get(canon[c][0])
    # removals
    for c in R.sample(sorted(canon), 60):
        if c not in variants and c not in used and c > 0x250: del canon[c]; excl.discard(c)
    for c in R.sample(sorted(compat), 100):
        if c not in used: del compat[c]
    for c in R.sample(sorted(ccc), 40):
        if c not in used and c not in canon and c not in compat and c not in protected: del ccc[c]
    for c in R.sample(sorted(ccc), 25):                 # another class
        if c not in used and c not in protected and c not in canon: ccc[c] = R.randint(1, 254)
    for c in R.sample(sorted(marks), 30): marks.discard(c)
    # new combining marks, of any class
    newmarks = []
    for _ in range(60):
        c = free(); fresh.add(c); ccc[c] = R.choice((R.randint(1, 254), 230, 220, 9, 1, 254)); newmarks.append(c)
        if R.random() < .8: marks.add(c)
    for _ in range(20): c = free(); fresh.add(c); marks.add(c)
    # exclusions
    cand = [c for c in canon if len(canon[c]) == 2 and c not in firsts and not excluded(c)]
    for c in R.sample(cand, 25): excl.add(c)
    for c in sorted(excl):
        if R.random() < .15 and (canon.get(c, [0])[0] not in canon) and c in canon and len(canon[c]) == 2 and canon[c][1] not in canon: excl.discard(c)
    # new composites: pairs of starters and marks, cascades, in and between all planes
    pairs = {tuple(m) for m in canon.values()}
    starters = [c for a, b in assigned for c in range(a, min(b, a + 400) + 1) if c > 0x60 and not ccc.get(c) and not hangul(c) and not 0xd7b0 <= c < 0xd800 and (c not in canon or not excluded(c))]
    seconds = sorted({m[1] for m in canon.values() if len(m) == 2 and not hangul(m[1])}) + newmarks * 3
    for _ in range(160):
        k = free()
        a = R.choice(starters) if R.random() < .7 or not fresh else R.choice(sorted(fresh))
        b = R.choice(seconds) if R.random() < .75 else R.choice(starters)
        if ccc.get(a) or (a in canon and excluded(a)) or b in canon or b in compat or hangul(b) or b < 0x80 or a in compat or (a, b) in pairs or a == b: continue
        pairs.add((a, b)); canon[k] = [a, b]; fresh.add(k)
        if R.random() < .1: excl.add(k)
        else: starters.append(k)
    for _ in range(25):                                         # singletons, and mappings that begin with a non-starter
        k = free(); a = R.choice(starters)
        if a in canon and R.random() < .7: continue
        canon[k] = [a]; fresh.add(k)
    for _ in range(12):
        k = free(); a, b = R.choice(newmarks), R.choice(newmarks)
        if (a, b) not in pairs: pairs.add((a, b)); canon[k] = [a, b]; fresh.add(k); ccc[k] = ccc[a]
    # compatibility mappings of any shape
    anyc = starters + newmarks * 5 + sorted(canon) + sorted(compat)
    for _ in range(140):
        k = free(); n = R.choice((1, 1, 2, 2, 3, 4, 6, 9, 18, 24))
        m = [R.choice(anyc) for _ in range(n)]
        s = R.random()
        if s < .2: m = [R.choice(newmarks) for _ in range(n)]
        elif s < .4: m = [R.choice(newmarks) for _ in range(R.randint(1, 6))] + m
        elif s < .6: m = m + [R.choice(newmarks) for _ in range(R.randint(1, 6))]
        compat[k] = m; fresh.add(k)
        if R.random() < .1: ccc[k] = R.randint(1, 254)
    old = [c for c in starters if c not in canon and c not in compat and c > 0x3000 and c not in used and c not in seconds and c not in fresh]
    for c in R.sample(old, 40): compat[c] = [R.choice(anyc) for _ in range(R.choice((1, 2, 3)))]
    # a non-starter decomposes to non-starters only
    def fullk(c): return [x for m in canon.get(c) or compat[c] for x in fullk(m)] if c in canon or c in compat else [c]
    # no mapping may lead back to its character
    def reaches(c, seen=()):
        return any(x in seen or reaches(x, seen + (x,)) for x in canon.get(c, []) + (compat.get(c, []) if c not in canon else []))
    for c in [c for c in list(compat) if reaches(c, (c,))]: del compat[c]
    for c in [c for c in list(canon) if c in compat]: compat.pop(c)
    while True:
        bad = [c for c in list(compat) + list(canon) if ccc.get(c) and not all(ccc.get(x) for x in fullk(c))]
        if not bad: break
        for c in bad: del ccc[c]
    # ideographs with variants
    for _ in range(30):
        k = free_astral.pop(); u = R.randint(0x4e00, 0x9000)
        canon[k] = [u]; fresh.add(k); variants[k] = [u, R.choice((0xfe00, 0xfe01, 0xfe02, 0xe0100))]
    for c in R.sample(sorted(variants), 25): del variants[c]
    # a Primary Composite's first character must itself be reachable, and its marks be in order
    def full(c): return [x for m in canon[c] for x in full(m)] if c in canon else [c]
    def disordered(c):
        k = [ccc.get(x, 0) for x in full(c)]
        return any(b and b < a for a, b in zip(k, k[1:]))
    while True:
        bad = [c for c in canon if len(canon[c]) == 2 and not excluded(c) and ((canon[c][0] in canon and excluded(canon[c][0])) or canon[c][1] in canon or disordered(c))]
        if not bad: break
        excl.update(bad)
    # more assigned characters, singly and in ranges
    extra = set(c for c in (free() for _ in range(50)))
    ranges = []
    for a in (0x2ebf0, 0x33480, 0x3d000):
        n = R.randint(300, 3000)
        if not any(is_assigned(c) or c in fresh or c in extra for c in range(a, a + n)): ranges.append([a, a + n - 1])
    allc = sorted(set(c for a, b in assigned for c in range(a, b + 1)) | fresh | extra | set(c for a, b in ranges for c in range(a, b + 1)))
    drop = set(R.sample([c for c in allc if c > 0x3000 and c not in canon and c not in compat and c not in ccc and c not in used and c not in marks and not hangul(c)
                         and c not in seconds and c not in firsts], 60))
    newused = set(x for m in list(canon.values()) + list(compat.values()) for x in m)
    allc = [c for c in allc if c not in drop or c in newused]
    marks &= set(allc)
    def compress(l):
        out = []
        for c in sorted(l):
            if out and out[-1][1] == c - 1: out[-1][1] = c
            else: out.append([c, c])
        return out
    table = lambda m: [[c] + (m[c] if isinstance(m[c], list) else [m[c]]) for c in sorted(m)]
    return dict(version=[16 + seed, seed % 3, 10 * (seed // 2) + seed], canon=table(canon), compat=table(compat), ccc=table(ccc), excl=sorted(excl & set(canon)), variants=table(variants),
                marks=compress(marks), assigned=compress(allc), ranges=ranges)

def small(base, seed):
    """A database with only a handful of entries in every table (and one in some)."""
    R = random.Random(seed)
    canon = {r[0]: r[1:] for r in base['canon']}
    compat = {r[0]: r[1:] for r in base['compat']}
    ccc = {r[0]: r[1] for r in base['ccc']}
    variants = {r[0]: r[1:] for r in base['variants']}
    excl = set(base['excl'])
    def closure(l):
        out, todo = set(), list(l)
        while todo:
            c = todo.pop()
            if c not in out: out.add(c); todo += canon.get(c, []) + compat.get(c, [])
        return out
    n = lambda k: R.choice((1, 2, 3, k))
    composites = [c for c in canon if len(canon[c]) == 2 and c not in excl and not ccc.get(c) and not ccc.get(canon[c][0])]
    keep = closure(R.sample(composites, n(12)) + R.sample(sorted(excl), n(4)) + R.sample([c for c in canon if len(canon[c]) == 1 and c not in variants], n(4))
                   + R.sample(sorted(compat), n(8)) + R.sample(sorted(ccc), n(6)) + R.sample(sorted(variants), n(3)) + [0x300, 0x301, 0x315, 0x323, 0x344, 0xe9])
    trailing = [c for c in keep if c in canon and len(canon[c]) == 2 and canon[c][1] in ccc]
    ranges = [[0, 0x24f]] + [r for r in base['assigned'] if r[0] <= 0xac00 <= r[1]]
    inside = lambda c: any(a <= c <= b for a, b in ranges)
    for c in sorted(keep):
        if not inside(c): ranges.append([c, c])
    # characters of those ranges without a mapping any more are plain
    ranges.sort()
    marks = sorted(c for c in keep if any(a <= c <= b for a, b in base['marks'])) or [0x300]
    table = lambda m: [[c] + (m[c] if isinstance(m[c], list) else [m[c]]) for c in sorted(m) if c in keep]
    merged = []
    for a, b in ranges:
        if merged and a <= merged[-1][1] + 1: merged[-1][1] = max(b, merged[-1][1])
        else: merged.append([a, b])
    assert trailing
    return dict(version=[3, 0, seed], canon=table(canon), compat=table(compat), ccc=table(ccc), excl=sorted(excl & keep), variants=table(variants),
                marks=[[c, c] for c in marks], assigned=merged, ranges=[])

def write(d, derived, tests, out):
    """UnicodeData.txt, DerivedNormalizationProps.txt, StandardizedVariants.txt, NormalizationTest.txt"""
    os.makedirs(out, exist_ok=True)
    R = random.Random(len(d['canon']))
    canon = {r[0]: r[1:] for r in d['canon']}
    compat = {r[0]: r[1:] for r in d['compat']}
    ccc = {r[0]: r[1] for r in d['ccc']}
    variants = {r[0]: r[1:] for r in d['variants']}
    marks = set(c for a, b in d['marks'] for c in range(a, b + 1))
    hx = lambda c: '%04X' % c
    tags = ['<compat>', '<font>', '<noBreak>', '<super>', '<circle>', '<narrow>', '<wide>', '<isolated>']
    ranges = [[0x3400, 0x4dbf, 'CJK Ideograph Extension A'], [0x4e00, 0x9fff, 'CJK Ideograph'], [0xac00, 0xd7a3, 'Hangul Syllable'],
              [0x17000, 0x187f7, 'Tangut Ideograph'], [0x20000, 0x2a6df, 'CJK Ideograph Extension B'], [0x30000, 0x3134a, 'CJK Ideograph Extension G']]
    ranges += [[a, b, 'Test Range %X' % a] for a, b in d.get('ranges', [])]
    special = set(canon) | set(compat) | set(ccc) | marks
    isin = lambda a, b: any(x <= a and b <= y for x, y in d['assigned'])
    ranges = [r for r in ranges if isin(r[0], r[1]) and not any(c in special for c in range(r[0], r[1] + 1))]
    lines = []
    def line(c, name, gc, k=0, m=''): lines.append((c, ';'.join([hx(c), name, gc, str(k), 'L', m, '', '', '', 'N', '', '', '', '', ''])))
    for a, b, n in ranges + [[0xd800, 0xdb7f, 'Non Private Use High Surrogate'], [0xdb80, 0xdbff, 'Private Use High Surrogate'], [0xdc00, 0xdfff, 'Low Surrogate'],
                             [0xe000, 0xf8ff, 'Private Use'], [0xf0000, 0xffffd, 'Plane 15 Private Use'], [0x100000, 0x10fffd, 'Plane 16 Private Use']]:
        gc = 'Cs' if 'Surrogate' in n else 'Co' if 'Private' in n else 'Lo'
        line(a, '<%s, First>' % n, gc); line(b, '<%s, Last>' % n, gc)
    covered = lambda c: any(a <= c <= b for a, b, _ in ranges)
    ideographs = set(variants) | {c for c in canon if 0xf900 <= c <= 0xfaff or 0x2f800 <= c <= 0x2fa1f}
    for a, b in d['assigned']:
        c = a
        while c <= b:
            r = next((x for x in ranges if x[0] == c), None)
            if r: c = r[1] + 1; continue
            m = ' '.join(map(hx, canon[c])) if c in canon else R.choice(tags) + ' ' + ' '.join(map(hx, compat[c])) if c in compat else ''
            name = '<control>' if c < 32 or 127 <= c < 160 else 'CJK COMPATIBILITY IDEOGRAPH-' + hx(c) if c in ideographs else 'CHARACTER ' + hx(c)
            gc = R.choice(('Mn', 'Mn', 'Mc', 'Me')) if c in marks else 'Cc' if name == '<control>' else R.choice(('Lo', 'Ll', 'Lu', 'So', 'Sm', 'Nd', 'No', 'Po', 'Zs', 'Cf', 'Lt', 'Lm', 'Nl', 'Sk', 'Pf', 'Zl'))
            line(c, name, gc, ccc.get(c, 0), m)
            c += 1
    lines.sort()
    open(os.path.join(out, 'UnicodeData.txt'), 'w').write('\n'.join(l for _, l in lines) + '\n')
    # properties, as ranges where possible, amid others
    o = ['# DerivedNormalizationProps', '']
    def prop(name, cs, value=None):
        run = []
        for c in cs + [None]:
            if run and (c is None or c != run[-1] + 1 or R.random() < .02):
                f = hx(run[0]) if len(run) == 1 else hx(run[0]) + '..' + hx(run[-1])
                o.append('%-14s; %s%s # %s' % (f, name, '; ' + value if value else '', R.choice(('Lo', 'Mn', '[2] X..Y; Z'))))
                run = []
            if c is not None: run.append(c)
        o.append('')
    o += ['00A0          ; FC_NFKC; 0020 # not used', '037A          ; FC_NFKC; 0020 03B9', '']
    prop('Full_Composition_Exclusion', derived['fce'])
    prop('NFD_QC', derived['nfd_n'], 'N')
    prop('NFC_QC', derived['nfc_n'], 'N'); prop('NFC_QC', derived['nfc_m'], 'M')
    prop('NFKD_QC', derived['nfkd_n'], 'N')
    prop('NFKC_QC', derived['nfkc_n'], 'N'); prop('NFKC_QC', derived['nfkc_m'], 'M')
    prop('Expands_On_NFD', sorted(canon)[:50]); prop('Changes_When_NFKC_Casefolded', sorted(compat)[:80])
    open(os.path.join(out, 'DerivedNormalizationProps.txt'), 'w').write('\n'.join(o) + '\n')
    v = ['# StandardizedVariants', '0030 FE00; short diagonal stroke form; # DIGIT ZERO', '1820 180B; second form; isolate medial final # with a context',
         '2205 FE00; zero with long diagonal stroke overlay form; # EMPTY SET', '4E00 FE00; CHARACTER 0041; # not an ideograph', '4E01 FE00; CJK COMPATIBILITY IDEOGRAPH-0041; # no such name', '']
    vs = [(v2, k) for k, v2 in variants.items()]; R.shuffle(vs)
    v += ['%s; CJK COMPATIBILITY IDEOGRAPH-%s; # %s' % (' '.join(map(hx, a)), hx(k), 'x; y') for a, k in vs]
    # contextual, therefore no variant
    some = [c for c in ideographs if c not in variants][:3]
    v += ['%s FE00; CJK COMPATIBILITY IDEOGRAPH-%s; isolate # contextual' % (hx(canon[c][0]), hx(c)) for c in some if len(canon[c]) == 1]
    open(os.path.join(out, 'StandardizedVariants.txt'), 'w').write('\n'.join(v) + '\n')
    t = ['# NormalizationTest', '@Part0 # Specific cases', '#']
    for k, row in enumerate(tests):
        if k == len(tests) // 2: t.append('@Part1 # Character by character test; with; semi; colons; inside')
        t.append(''.join(' '.join(map(hx, x)) + ';' for x in row) + ' # (x; y; z; w; v)')
    open(os.path.join(out, 'NormalizationTest.txt'), 'w').write('\n'.join(t) + '\n')

RUNNER = r'''
import io, os, runpy, sys, urllib.request
files = sys.argv[1]
def stub(url, *a, **k):
    url = url if isinstance(url, str) else url.full_url
    name = url.rsplit('/', 1)[-1]
    return io.BytesIO(open(os.path.join(files, name), 'rb').read())
urllib.request.urlopen = stub
sys.argv = [sys.argv[2]]
runpy.run_path(sys.argv[0], run_name='__main__')
'''
