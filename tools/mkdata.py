#!/usr/bin/env python3
"""Development-time tool: builds spec/data/ucd16.json, the Unicode 16.0 character data the
specification is instantiated with, from sources that are independent of /repo:

  * Python 3.12 `unicodedata` (Unicode 15.0): raw decompositions, combining classes;
  * Node 22's ICU 78 (Unicode 17.0), restricted to characters assigned in 16.0, for the characters
    that 15.1/16.0 added (raw decompositions and combining classes are found by experiment);
  * regex-syntax 0.8.11's generated tables (ucd-generate, Unicode 16.0.0): General_Category, Age.

It is not run by any check (the result is committed); run it as  mkdata.py REGEX_SYNTAX_DIR OUT.
"""
import json, re, subprocess, sys, unicodedata as u

rs, out = sys.argv[1:3]


def rust_ranges(path, name):
    src = open(path, encoding="utf-8").read()
    m = re.search(r"pub const %s: &'static \[\(char, char\)\] =\s*&\[(.*?)\];" % name, src, re.S)
    def one(t):
        if t.startswith("\\u{"):
            return int(t[3:-1], 16)
        if t.startswith("\\"):
            return {"\\0": 0, "\\t": 9, "\\n": 10, "\\r": 13, "\\'": 39, '\\"': 34, "\\\\": 92}[t]
        assert len(t) == 1, t
        return ord(t)
    body = m.group(1)
    rx = r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\])'"
    return [[one(a), one(b)] for a, b in re.findall(r"\(\s*%s,\s*%s,?\s*\)" % (rx, rx), body)]


gc = rs + "/src/unicode_tables/general_category.rs"
marks = rust_ranges(gc, "MARK")
# UNASSIGNED in regex-syntax is gc=Cn; add Co and Cs.
un = rust_ranges(gc, "UNASSIGNED") + rust_ranges(gc, "PRIVATE_USE") + [[0xD800, 0xDFFF]]
un.sort()
assigned, nxt = [], 0
for lo, hi in un:
    if lo > nxt:
        assigned.append([nxt, lo - 1])
    nxt = max(nxt, hi + 1)
if nxt <= 0x10FFFF:
    assigned.append([nxt, 0x10FFFF])
isassigned = set(c for lo, hi in assigned for c in range(lo, hi + 1))
new = sorted(c for c in isassigned if u.category(chr(c)) == "Cn")
assert not [c for c in range(0x110000) if u.category(chr(c)) not in ("Cn", "Co", "Cs") and c not in isassigned]


def node(js, data):
    r = subprocess.run(["node", "-e", js], input=json.dumps(data), capture_output=True, text=True, check=True)
    return json.loads(r.stdout)


def norm(form, strs):
    return node(
        "const d=JSON.parse(require('fs').readFileSync(0));"
        "process.stdout.write(JSON.stringify(d[1].map(s=>Array.from(String.fromCodePoint(...s).normalize(d[0]),c=>c.codePointAt(0)))))",
        [form, strs])


# --- raw decompositions
canon, compat = {}, {}
for c in range(0x110000):
    if 0xAC00 <= c < 0xAC00 + 11172:
        continue
    d = u.decomposition(chr(c))
    if d.startswith("<"):
        compat[c] = [int(x, 16) for x in d.split()[1:]]
    elif d:
        canon[c] = [int(x, 16) for x in d.split()]

nfd = dict(zip(new, norm("NFD", [[c] for c in new])))
nfkd = dict(zip(new, norm("NFKD", [[c] for c in new])))
nfc = dict(zip(new, norm("NFC", [[c] for c in new])))
decomposing = [c for c in new if nfd[c] != [c]]
full = {c: tuple(nfd[c]) for c in decomposing}
for c in decomposing:
    d = list(full[c])
    if len(d) == 1:
        canon[c] = d
    elif len(d) == 2:
        canon[c] = d
    else:  # the raw mapping's first half is a composite whose full decomposition is the prefix
        pre = [x for x in decomposing if list(full[x]) == d[:-1]] + (
            [x for x in canon if 2 == len(d) - 1 and canon[x] == d[:-1]])
        suf = [x for x in decomposing if list(full[x]) == d[1:]]
        cand = [[p, d[-1]] for p in pre] + [[d[0], s] for s in suf]
        # the raw mapping is the pair that NFC composes to c
        good = [p for p in cand if norm("NFC", [p])[0] == [c] and p[0] != d[0]] or [p for p in cand if norm("NFC", [p])[0] == [c]]
        assert len(good) >= 1, (hex(c), d, cand)
        canon[c] = good[0]
for c in new:
    if nfkd[c] != nfd[c]:
        # new compatibility mappings of 15.1/16.0 map straight to fully decomposed text
        compat[c] = nfkd[c]

# --- combining classes
ccc = {c: u.combining(chr(c)) for c in range(0x110000) if u.combining(chr(c))}
reps = {}
for c, k in sorted(ccc.items()):
    if u.normalize("NFD", chr(c)) == chr(c):
        reps.setdefault(k, c)
cand = [c for c in new if any(lo <= c <= hi for lo, hi in marks)]
tests = []
for c in cand:
    for k, r in sorted(reps.items()):
        tests += [[c, r], [r, c]]
res = iter(norm("NFD", tests))
for c in cand:
    lo, hi, seen = -1, 999, False
    for k, r in sorted(reps.items()):
        a, b = next(res), next(res)
        if nfd[c] != [c]:
            continue
        if a == [r, c]:
            seen, lo = True, max(lo, k)       # k < class(c)
        if b == [c, r]:
            seen, hi = True, min(hi, k)       # class(c) < k
    if seen:
        ks = [k for k in reps if lo < k < hi]
        assert len(ks) == 1, (hex(c), lo, hi)
        ccc[c] = ks[0]

# --- script-specific composition exclusions: canonical pairs that NFC does not compose and that the
#     definition does not exclude by itself (singletons and non-starter decompositions)
pairs = sorted(c for c in canon if len(canon[c]) == 2)
rec = dict(zip(pairs, norm("NFC", [[c] for c in pairs])))
excl = [c for c in pairs if rec[c] != [c] and not (ccc.get(c) or ccc.get(canon[c][0]))]

# --- standardized variants of the CJK compatibility ideographs.  The data files are not installed here;
#     StandardizedVariants.txt assigns VS1, VS2, ... to the ideographs sharing a base in code point order.
base = {}
for c in sorted(canon):
    if u.name(chr(c), "").startswith("CJK COMPATIBILITY IDEOGRAPH-"):
        assert len(canon[c]) == 1
        base.setdefault(canon[c][0], []).append(c)
var = {c: [b, 0xFE00 + i] for b, l in base.items() for i, c in enumerate(l)}

data = {
    "version": [16, 0, 0],
    "canon": [[c] + canon[c] for c in sorted(canon)],
    "compat": [[c] + compat[c] for c in sorted(compat)],
    "ccc": [[c, ccc[c]] for c in sorted(ccc)],
    "excl": excl,
    "variants": [[c] + var[c] for c in sorted(var)],
    "marks": marks,
    "assigned": assigned,
}
with open(out, "w") as f:
    f.write("{\n" + ",\n".join(' "%s": %s' % (k, json.dumps(v, separators=(",", ":"))) for k, v in data.items()) + "\n}\n")
print({k: len(v) for k, v in data.items()}, "new chars", len(new), "new decomposing", len(decomposing), [hex(c) for c in excl][-8:])
