#!/usr/bin/env python3
"""Decides one property: check.py setup | check.py run Cxx.

A run (1) has TLC check the specification's model of the property, (2) rebuilds the harness against /repo's
working tree, (3) binds the two: behaviours generated by TLC from the specification are replayed into the real
code, and traces and tables recorded from the real code are judged by TLC against the specification.

exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself could not be carried out."""
import concurrent.futures as cf
import fcntl, glob, hashlib, itertools, json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gendb, tlc
ROOT, SPEC, BUILD = tlc.ROOT, tlc.SPEC, tlc.BUILD
REPO = '/repo'
HARNESS = os.path.join(ROOT, 'harness')
CORPUS = os.path.join(BUILD, 'corpus')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
DATA = os.path.join(SPEC, 'data', 'ucd16.json')

class Broken(Exception):
    """The check itself failed: no verdict."""

class Enough(Exception):
    """A violation was found: what remains need not be explored."""

_uid = itertools.count()
def uid(): return '%d.%d' % (os.getpid(), next(_uid))

def say(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- the specification

def cfg_text(consts, invs=(), props=(), view=None, spec=False, init='Init', next='Next'):
    l = ['SPECIFICATION Spec'] if spec else ['INIT ' + init, 'NEXT ' + next]
    if view: l.append('VIEW ' + view)
    if consts: l += ['CONSTANTS'] + [' %s %s %s' % (k, '<-' if isinstance(v, str) and v.isidentifier() else '=', v) for k, v in consts.items()]
    if invs: l += ['INVARIANTS ' + ' '.join(invs)]
    if props: l += ['PROPERTIES ' + ' '.join(props)]
    return '\n'.join(l + ['CHECK_DEADLOCK FALSE', ''])

def model(name, module, consts, invs=(), props=(), view=None, spec=False, env=None, workers=8, timeout=3000, ucd=None, heap='10g', dump=None, init='Init', next='Next'):
    os.makedirs(os.path.join(BUILD, 'cfg'), exist_ok=True)
    f = os.path.join(BUILD, 'cfg', '%s.%s.cfg' % (name, uid()))
    open(f, 'w').write(cfg_text(consts, invs, props, view, spec, init, next))
    extra = ('-dumpTrace', 'json', dump) if dump else ()
    try:
        return tlc.run(module, f, env, workers=workers, timeout=timeout, ucd=ucd, heap=heap, extra=extra)
    except tlc.TlcError as e:
        raise Broken(str(e))
    finally:
        os.remove(f)

def q(s): return '"%s"' % s

# ---------------------------------------------------------------- behaviours generated from the specification

# what each corpus is made of: the module TLC runs, and the tools that choose its inputs
MADE_OF = [('oracle-', 'Oracle', ['mktexts.py']), ('explore-', 'Explore', []), ('blocks-', 'Giants', ['mkblocks.py']), ('profile', 'Profiles', ['mktexts.py']),
           ('frames-', 'Uniform', ['mktexts.py']), ('schedules-', 'Interleave', []), ('endless-', 'Endless', []), ('database-records-', 'Oracle', ['gendb.py', 'mktexts.py']),
           ('database-', None, ['gendb.py']), ('derived-', 'Derive', ['gendb.py'])]

def modules(m, seen=None):
    """a module and those it extends or instantiates"""
    seen = set() if seen is None else seen
    f = os.path.join(SPEC, m + '.tla')
    if m not in seen and os.path.exists(f):
        seen.add(m)
        for x in re.findall(r'(?m)^\s*(?:EXTENDS|.*INSTANCE)\s+([\w, \n]+?)$', open(f).read()):
            for y in re.split(r'[,\s]+', x): modules(y, seen)
    return seen

def spec_key(name):
    module, tools = next((m, t) for p, m, t in MADE_OF if name.startswith(p))
    h = hashlib.sha256()
    for f in sorted(os.path.join(SPEC, m + '.tla') for m in (modules(module) if module else ())) + [DATA] + [os.path.join(ROOT, 'tools', t) for t in tools]:
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:12]

def produce(name, make):
    """The file of a corpus, generated unless this specification's is there already."""
    os.makedirs(CORPUS, exist_ok=True)
    path = os.path.join(CORPUS, '%s-%s' % (name, spec_key(name)))
    with open(os.path.join(CORPUS, name + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(path):
            for old in glob.glob(os.path.join(CORPUS, glob.escape(name) + '-' + '[0-9a-f]' * 12 + '*')):
                shutil.rmtree(old) if os.path.isdir(old) else os.remove(old)
            tmp = path + '.tmp'
            shutil.rmtree(tmp + '.d', ignore_errors=True)
            if os.path.exists(tmp): os.remove(tmp)
            os.makedirs(tmp + '.d')
            make(tmp)
            with open(tmp, 'ab') as o:         # long lines were written to files of their own
                for f in sorted(glob.glob(tmp + '.d/*')): o.write(open(f, 'rb').read())
            shutil.rmtree(tmp + '.d')
            if os.path.exists(tmp + '.active'): os.rename(tmp + '.active', path + '.active')
            os.rename(tmp, path)
    return path

ALPHABETS = ['Latin', 'Latin2', 'Hangul', 'Hangul2', 'Indic', 'Indic2', 'Astral', 'Astral2', 'Kana', 'Greek', 'Tibetan', 'Hebrew',
             'Cjk', 'Runs', 'Runs2', 'Runs3', 'Mixed']

def texts_file(kind, scale, seed, ucd=DATA):
    f = os.path.join(BUILD, 'texts-%s-%s-%d.%s.json' % (kind, scale, seed, uid()))
    subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'mktexts.py'), f, str(seed), str(scale), kind], check=True, stdout=subprocess.DEVNULL,
                   env=dict(os.environ, UCD_FILE=ucd))
    return f

def oracle(kind, scale, seed, depth=1):
    def make(tmp):
        t = texts_file(kind, scale, seed)
        try:
            model('oracle', 'Oracle', dict(MaxNS=30, Depth=depth, Chunk=100), ['Recorded'], view='View', env=dict(TEXT_FILE=t, RECORD_FILE=tmp))
        finally: os.remove(t)
    return produce('oracle-%s-%s-%d' % (kind, scale, seed), make)

def explored(alpha, n):
    def make(tmp):
        model('explore-' + alpha, 'Explore', dict(MaxNS=30, Alpha=alpha, MaxLen=n), ['Recorded'], env=dict(RECORD_FILE=tmp), workers=3)
    return produce('explore-%s-%d' % (alpha, n), make)

def alphabets(n):
    with cf.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda a: explored(a, n(a)), ALPHABETS))

def quick_len(a): return 3 if a in ('Mixed', 'Runs2') else 4
def deep_len(a): return {'Mixed': 4, 'Runs2': 4, 'Runs': 4, 'Runs3': 4}.get(a, 5)

GIANTS = dict(MaxNS=30, Pieces='{}', Counts='{}', MaxLen=0)
def block_texts(count, limit, seed):
    def make(tmp):
        f = tmp + '.texts'
        subprocess.run([sys.executable, os.path.join(ROOT, 'tools', 'mkblocks.py'), f, str(seed), str(count), str(limit)], check=True)
        try: model('giants', 'Giants', GIANTS, ['BlocksRecorded'], next='NextText', env=dict(TEXT_FILE=f, RECORD_FILE=tmp))
        finally: os.remove(f)
    return produce('blocks-%d-%d-%d' % (count, limit, seed), make)
def giants():
    return [block_texts(6000, 90000, SEED), block_texts(300, 1000000, SEED + 1)] if THOROUGH else [block_texts(700, 90000, SEED)]

def records():
    if THOROUGH:
        return [oracle('full', 1, SEED), oracle('core', .2, SEED + 1)] + alphabets(deep_len) + giants()
    return [oracle('core', .2, SEED)] + alphabets(quick_len) + giants()

def profile_set(alpha, n):
    def make(tmp):
        model('profiles-' + alpha, 'Profiles', dict(MaxNS=30, Alpha=alpha, MaxLen=n, Chains='ChainList'), ['Emitted', 'Right'], env=dict(RECORD_FILE=tmp), workers=4)
    return produce('profiles-%s-%d' % (alpha, n), make)

def short_texts(n, lo, hi, seed):
    """n of the core corpus's texts"""
    t = texts_file('core', .05, seed)
    try: l = [x for x in json.load(open(t)) if lo <= len(x) <= hi]
    finally: os.remove(t)
    random.Random(seed).shuffle(l)
    return l[:n]

def profile_texts(n, lo, hi, seed):
    def make(tmp):
        f = tmp + '.texts'
        json.dump(short_texts(n, lo, hi, seed), open(f, 'w'))
        try: model('profiles-texts', 'Profiles', dict(MaxNS=30, Alpha='Latin', MaxLen=0, Chains='ChainList'), ['Emitted', 'Right'], env=dict(RECORD_FILE=tmp, TEXT_FILE=f))
        finally: os.remove(f)
    return produce('profiles-texts-%d-%d-%d' % (n, hi, seed), make)

def profiles():
    sets = [('Latin', 3), ('Hangul', 3), ('Indic', 3), ('Astral', 3), ('Kana', 3), ('Cjk', 3), ('Runs', 2), ('Runs2', 2), ('Runs3', 2), ('Greek', 2), ('Tibetan', 2)]
    if THOROUGH: sets = [(a, 4) if a in ('Latin', 'Hangul', 'Indic', 'Kana', 'Cjk') else (a, 3) for a in ALPHABETS]
    with cf.ThreadPoolExecutor(3) as ex:
        l = list(ex.map(lambda x: profile_set(*x), sets))
    return l + [profile_texts(20000 if THOROUGH else 2500, 2, 70, SEED), profile_texts(400 if THOROUGH else 60, 71, 320, SEED + 3)]

# texts with placeholders, and the characters that may not stand in them
def frames(kind):
    def make(tmp):
        t = texts_file(kind, 1, SEED)
        try: model('frames', 'Uniform', dict(MaxNS=30), ['Uniform', 'Recorded', 'Listed'], env=dict(TEXT_FILE=t, RECORD_FILE=tmp))
        finally: os.remove(t)
    return produce('frames-%s-%d' % (kind, SEED), make)
def active(): return frames('frames') + '.active'

def profile_frames(n):
    def make(tmp):
        t = texts_file('frames', 1, SEED)
        l = [x for x in json.load(open(t)) if len(x) < 12]; os.remove(t)
        random.Random(SEED).shuffle(l)
        f = tmp + '.texts'
        json.dump([[57344], [57344, 57345], [97, 57344, 769]] + l[:n], open(f, 'w'))
        try: model('profile-frames', 'Profiles', dict(MaxNS=30, Alpha='Latin', MaxLen=0, Chains='ChainList'), ['Emitted', 'Right'], env=dict(RECORD_FILE=tmp, TEXT_FILE=f))
        finally: os.remove(f)
    return produce('profile-frames-%d-%d' % (n, SEED), make)

def endless_set(alpha, n, calls):
    def make(tmp):
        model('endless-' + alpha, 'Endless', dict(MaxNS=30, Alpha=alpha, MaxPer=n, Leads='LeadSet', Chains='ChainList', Calls=calls), ['EndlessEmitted', 'EndlessRight'],
              env=dict(RECORD_FILE=tmp), workers=4, init='RecInit', next='RecNext')
    return produce('endless-%s-%d-%d' % (alpha, n, calls), make)

def endless():
    with cf.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda a: endless_set(a, 3 if THOROUGH and a in ('Latin', 'Hangul', 'Indic', 'Kana', 'Mixed') else 2, LEN(16, 40)), ALPHABETS))

def schedule_set(name, configs, snaps, streams):
    def make(tmp):
        model('schedules-' + name, 'Interleave', dict(MaxNS=30, Configs=configs, MaxSnaps=snaps, MaxStreams=streams), ['Independent', 'Recorded'], env=dict(RECORD_FILE=tmp))
    return produce('schedules-%s-%d-%d' % (configs, snaps, streams), make)

def schedules():
    l = [schedule_set('pairs', 'Pairs', 0, 2), schedule_set('triples', 'Triples', 0, 3), schedule_set('snaps', 'Singles', 1, 2)]
    if THOROUGH: l += [schedule_set('snaps2', 'Singles', 2, 2), schedule_set('pairs1', 'Pairs', 1, 2)]
    return l

# character databases: 0 is Unicode 16.0 itself, the others differ from it

def database(k):
    def make(tmp): json.dump(gendb.small(json.load(open(DATA)), k) if k >= 100 else gendb.later(json.load(open(DATA)), k) if k else json.load(open(DATA)), open(tmp, 'w'))
    return produce('database-%d' % k, make)

def derived(k):
    db = database(k)
    def make(tmp):
        os.remove(tmp) if os.path.exists(tmp) else None
        d = model('derive', 'Derive', dict(MaxNS=30), ['Written', 'WellFormed'], env=dict(OUT_FILE=tmp), ucd=db, workers=2)
        if not d['ok']: raise Broken('database %d is not well-formed: %s' % (k, d['violated']))
    return produce('derived-%d' % k, make)

def database_records(k, n):
    db = database(k)
    def make(tmp):
        t = texts_file('core', .05, 500 + k, db)
        l = json.load(open(t)); random.Random(k).shuffle(l)
        l = [x for x in l if len(x) < 90][:n]
        json.dump(l, open(t, 'w'))
        try: model('oracle-db', 'Oracle', dict(MaxNS=30, Depth=0, Chunk=100), ['Recorded'], view='View', env=dict(TEXT_FILE=t, RECORD_FILE=tmp), ucd=db, workers=4)
        finally: os.remove(t)
    return produce('database-records-%d-%d' % (k, n), make)

# ---------------------------------------------------------------- the implementation

BUILDS = {  # name: (profile, std?)
    'checked-std': ('checked', True), 'release-nostd': ('release', False), 'release-std': ('release', True),
    'checked-nostd': ('checked', False), 'plain-std': ('plain', True), 'plain-nostd': ('plain', False)}

def build(names, crate=HARNESS, place=None):
    """Harness binaries compiled from /repo's working tree."""
    jobs = max(1, 8 // len(names))
    def one(n):
        prof, std = BUILDS[n]
        target = os.path.join(place or os.path.join(BUILD, 'target'), n)
        # cargo trusts time stamps; a file put back with an old one must not go unnoticed
        for d in glob.glob(os.path.join(target, '*', '.fingerprint', 'unicode-normalization-*')) + glob.glob(os.path.join(target, '*', '.fingerprint', 'harness-*')):
            shutil.rmtree(d, ignore_errors=True)
        cmd = ['cargo', 'build', '--offline', '--quiet', '--locked', '--profile', {'plain': 'plain'}.get(prof, prof), '-j', str(jobs)]
        if not std: cmd += ['--no-default-features']
        e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='')
        e.pop('RUSTFLAGS', None)
        r = subprocess.run(cmd, cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: return n, Broken('build %s failed:\n%s' % (n, r.stdout[-3000:]))
        return n, os.path.join(target, prof, 'harness')
    with cf.ThreadPoolExecutor(len(names)) as ex:
        return dict(ex.map(one, names))

def harness(binary, args, ok=(0, 3), timeout=3000):
    """-> (totals by property, violations)"""
    v = os.path.join(BUILD, 'viol.' + uid())
    if os.path.exists(v): os.remove(v)
    r = subprocess.run([binary, *args, '--viol', v], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    try: viols = json.load(open(v)) if os.path.exists(v) else []
    finally:
        if os.path.exists(v): os.remove(v)
    if r.returncode not in ok:
        # died: a stack overflow or an abort inside the code under test is its fault, anything else is ours
        if r.returncode < 0 or r.returncode == 134:
            return [], [dict(property='', what='the process died (signal %d): %s' % (-r.returncode, r.stderr[-300:]), input=[], expected='', got='')]
        raise Broken('harness %s: exit %d\n%s' % (args[:3], r.returncode, r.stderr[-3000:]))
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')], viols

# ---------------------------------------------------------------- one run

def known(pid, v):
    """the known finding that a violation is, if any"""
    f = os.path.join(ROOT, 'known-findings.txt')
    for l in open(f) if os.path.exists(f) else ():
        if l.startswith('finding: '):
            m = json.loads(l[len('finding: '):])
            if m['property'] == pid and m['input'] == v.get('input') and m['what'] in v.get('what', ''): return m

class Bins(dict):
    """binaries by build; another one stands in for a build that could not be made"""
    def __missing__(self, n):
        if not self: raise Broken('nothing was built')
        return next(iter(self.values()))

class Run:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.viols = []          # (source, violation)
        self.states = self.trans = self.traces = self.evals = self.excused = self.nontrivial = 0
        self.models, self.bound, self.samples, self.exhaustive = [], [], [], None
        self.bins = Bins()

    def spec(self, name, module, consts, invs=(), props=(), **kw):
        """The specification's own model: a failure here is ours."""
        d = model(name, module, consts, invs, props, **kw)
        if not d['ok']: raise Broken('the specification violates %s in %s\n%s' % (d['violated'], name, d['output'][-3000:]))
        self.states += d['distinct']; self.trans += d['states']
        self.models.append(dict(model=name, module=module, constants={k: str(v) for k, v in consts.items()}, invariants=list(invs), properties=list(props),
                                distinct_states=d['distinct'], depth=d['depth'], secs=d['secs']))

    def build(self, names=('checked-std', 'release-nostd')):
        """Builds of the crate that cannot be made (that one configuration does not compile is C18's business) are left out."""
        new = build([n for n in names if n not in self.bins])
        bad = {n: b for n, b in new.items() if isinstance(b, Broken)}
        if len(bad) == len(new): raise next(iter(bad.values()))
        self.bins.update({n: b for n, b in new.items() if n not in bad})
        for n, b in bad.items():
            self.models.append(dict(model='build', name=n, left_out=str(b)[-300:]))
            if self.pid == 'C18': self.found([('build', dict(what='the configuration %s does not compile, others do' % n, input=[], expected='', got=str(b)[-1200:]))])
        return self.bins

    def use(self, what, name, res):
        tot, viols = res
        for t in tot:
            self.evals += t['evals']; self.excused += t['excused']; self.nontrivial += t['nontrivial']; self.traces += t['cases']
            self.bound.append(dict(what=what, build=name, cases=t['cases'], nontrivial=t['nontrivial'], comparisons=t['evals'], set_aside=t['excused'], deviations=t['violations']))
        self.found([('%s in %s' % (what, name), v) for v in viols])

    def found(self, viols):
        self.viols += viols
        if any(not known(self.pid, v) for _, v in self.viols): raise Enough()

    def replay(self, files, extra=(), builds=None):
        for n in builds or self.bins:
            f = os.path.join(BUILD, 'disputes.' + uid())
            self.use('replay of specified texts', n, harness(self.bins[n], ['replay', *files, '--props', self.pid, '--seed', str(SEED), '--disputes', f, '--patience', '60', *extra]))
            if os.path.exists(f):
                try: self.settle(n, f)
                finally: os.remove(f)
        if files: self.sample(files[0])

    def scan(self, per=1, share=1, builds=None):
        """frames filled with every inert character, and with those that resemble an active one"""
        for n in builds or self.bins:
            f = os.path.join(BUILD, 'disputes.' + uid())
            self.use('frames filled with every inert character', n, harness(self.bins[n], ['scan', '--props', self.pid, '--frames', frames('frames'), '--likes', frames('likes'), '--active', active(),
                     '--per', str(per * LEN(1, 8)), '--share', str(max(1, share // LEN(1, 8))), '--seed', str(SEED + len(self.bound)), '--disputes', f, '--patience', '60']))
            if os.path.exists(f):
                try: self.settle(n, f)
                finally: os.remove(f)

    def settle(self, name, f):
        """results other than the specified ones: TLC decides whether the property asks for them"""
        bad = self.judge('Disputes', name, 'Disputes', GIANTS, ['Upheld'], dict(DISPUTE_FILE=f), init='DInit', next='DNext')
        if bad:
            k = (last_state(bad[1]) or {}).get('size', 0)
            e = json.loads(open(f).read().splitlines()[k - 1]) if k > 0 else ['', '', [], [], []]
            self.found([('Disputes on ' + name, dict(what='a result that is not "%s" (%s)' % (e[0], e[1]), input=e[2], expected='', got=e[4]))])

    def sample(self, f, n=3):
        with open(f) as h:
            for k, l in enumerate(h):
                if 5 < k and len(l) < 400:
                    self.samples.append(l.strip().strip('"').replace('\\"', '"'))
                    n -= 1
                    if n == 0: break

    def judge(self, what, name, module, consts, invs, env, view=None, ucd=None, **kw):
        """TLC judges something recorded from the implementation: a violated invariant is the implementation's."""
        dump = os.path.join(BUILD, 'trace.%s.json' % uid())
        if os.path.exists(dump): os.remove(dump)
        d = model('judge', module, consts, invs, view=view, env=env, ucd=ucd, dump=dump, **kw)
        self.states += d['distinct']; self.trans += d['states']
        self.models.append(dict(model=what, module=module, judges=name, invariants=list(invs), distinct_states=d['distinct'], depth=d['depth'], secs=d['secs']))
        if not d['ok']:
            state = None
            if os.path.exists(dump):
                try: state = json.load(open(dump))
                except ValueError: pass
            return d['violated'], state
        if os.path.exists(dump): os.remove(dump)
        return None

    def finish(self, level, rule, assumptions=()):
        fresh, hits = [], []
        for src, v in self.viols:
            hit = known(self.pid, v)
            if not hit: fresh.append((src, v))
            elif hit['what'] not in hits:
                hits.append(hit['what']); say('KNOWN-FINDING: property=%s %s' % (self.pid, hit['what']))
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, evaluations=self.evals,
                   distinct_nontrivial=self.nontrivial, rule=rule, set_aside=self.excused, models=self.models, bindings=self.bound, samples=self.samples[:6])
        if self.exhaustive is not None: cov['exhaustive'] = self.exhaustive
        ev = dict(property=self.pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 1), violations=len(fresh))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if not fresh:
            say('%s held: %d model states, %d behaviours bound, %d comparisons, %.1f s' % (self.pid, self.states, self.traces, self.evals, time.time() - self.t0))
            return 0
        d = os.path.join(BUILD, 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.pid + '.json')
        json.dump([dict(v, found_by=src) for src, v in fresh[:50]], open(path, 'w'), indent=1)
        for src, v in fresh[:5]:
            say('  %s: %s\n    input    %s\n    expected %s\n    got      %s' % (src, v.get('what'), str(v.get('input'))[:300], str(v.get('expected'))[:300], str(v.get('got'))[:300]))
        say('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1

# ---------------------------------------------------------------- recorded tables and histories

def dump_and_judge(r, kinds, builds=('checked-std',)):
    """The answers for every scalar value, judged by the specification."""
    for n in builds:
        f = os.path.join(BUILD, 'dump.%d.json' % os.getpid())
        r.use('answers for all scalar values', n, harness(r.bins[n], ['dump', '--kinds', ','.join(kinds), '--out', f, '--prop', r.pid]))
        if not os.path.exists(f): continue              # it died
        try:
            while True:
                bad = r.judge('CharDump: ' + ' '.join(kinds), n, 'CharDump', dict(MaxNS=30, Kinds='{%s}' % ', '.join(map(q, kinds))),
                              ['Agrees'] + (['VersionAgrees'] if r.pid == 'C15' else []), dict(DUMP_FILE=f))
                if not bad: break
                st = last_state(bad[1])
                if bad[0] == 'VersionAgrees' or not st or st.get('blk', -1) < 0:
                    r.viols.append(('CharDump on ' + n, dict(what=bad[0], input=[], expected='', got=str(json.load(open(f))['version']))))
                else:
                    rows = json.load(open(f))[st['kd']][st['blk']]
                    r.viols.append(('CharDump on ' + n, dict(what='"%s" of the characters U+%04X..U+%04X differs from the specification\'s' % (st['kd'], st['blk'] * 1024, st['blk'] * 1024 + 1023),
                                                            input=[st['blk'] * 1024], expected='the rows of SpecRows("%s", %d)' % (st['kd'], st['blk']), got=str(rows)[:1200])))
                break
        finally:
            if os.path.exists(f): os.remove(f)

def last_state(trace):
    """the last state of a -dumpTrace json file"""
    try:
        s = trace['counterexample']['state'] if 'counterexample' in trace else trace['state']
        x = s[-1]
        return x[1] if isinstance(x, list) else x
    except Exception:
        return None

def record_and_judge(r, builds=('checked-std', 'release-nostd')):
    """Histories recorded from live adapters, judged by the specification's machines."""
    n = 20000 if THOROUGH else 2000
    t = os.path.join(BUILD, 'trace-texts.%d.json' % os.getpid())
    json.dump(short_texts(6000, 1, 45, SEED + 7), open(t, 'w'))
    try:
        for k, b in enumerate(builds):
            f = os.path.join(BUILD, 'traces.%d.json' % os.getpid())
            r.use('recorded histories', b, harness(r.bins[b], ['trace', '--texts', t, '--mix', r.pid, '--count', str(n), '--seed', str(SEED * 10 + k), '--out', f]))
            if not os.path.exists(f): continue          # it died
            bad = r.judge('TraceStream (%d histories)' % n, b, 'TraceStream', dict(MaxNS=30, Judge=q(r.pid)), ['Valid', 'Follows'], dict(TRACE_FILE=f), view='View')
            if bad:
                st = last_state(bad[1]) or {}
                tr, at = st.get('tr', 0), st.get('at', 0)
                line = open(f).read().splitlines()[tr - 1] if tr > 0 else ''
                if bad[0] == 'Follows': raise Broken('the recorded history %d is not well-formed at %d: %s' % (tr, at, line[:2000]))
                h = json.loads(line) if line else [[], []]
                e = h[1][at - 2] if at >= 2 else None
                r.viols.append(('TraceStream on ' + b, dict(what='history rejected at event %d: %s' % (at - 1, json.dumps(e)), input=[x[1] for x in h[0]], expected='a step of the specification', got=line[:1400])))
            r.samples.append(open(f).readline()[:400])
            os.remove(f)
    finally: os.remove(t)

# ---------------------------------------------------------------- the properties

LEN = lambda a, b: b if THOROUGH else a
def stream(r, alpha, chains, n, invs, props=(), maxns=3, spec=True):
    r.spec('stream %s %s' % (alpha, chains), 'MCStream', dict(MaxNS=maxns, Alpha=alpha, MaxLen=n, Chains=chains), invs, props, spec=spec)
def blocks(r, invs):
    # the laws of block texts that the giants' records rest on
    for p, n in ('BP1', 'BCounts'), ('BP2', 'BCounts'), ('BP3', 'BCounts'), ('BP4', 'BCounts2'):
        r.spec('block texts ' + p, 'Giants', dict(MaxNS=4, Pieces=p, Counts=n, MaxLen=LEN(2, 3)), invs)
def theorems(r, invs, sets):
    for alpha, n, maxns in sets:
        r.spec('theorems %s' % alpha, 'Explore', dict(MaxNS=maxns, Alpha=alpha, MaxLen=n), invs)

TEXTS = ('every text of up to k pieces over 17 alphabets of real characters and every context text of tools/mktexts.py, closed under one '
         'transformation; non-trivial: the operation changes the text or is near its limit')

def c01(r):
    blocks(r, ['FormsCommute'])
    theorems(r, ['ThOrdering'], [('Short', LEN(4, 5), 4), ('Tibetan', LEN(3, 5), 30)])
    stream(r, 'AlD', 'ChD', LEN(4, 5), ['Exact', 'Continues', 'EndFinal'], ['Grows'])
    r.build(); r.replay(records()); r.scan(4); dump_and_judge(r, ['nfd', 'nfkd'])
    return r.finish('model_checking', TEXTS)
def c02(r):
    blocks(r, ['FormsCommute'])
    stream(r, 'AlC', 'ChC', LEN(3, 4), ['Exact', 'Continues', 'EndFinal'], ['Grows'])
    r.build(); r.replay(records()); r.scan(4); dump_and_judge(r, ['nfc', 'nfkc', 'prec', 'foll'])
    return r.finish('model_checking', TEXTS)
def c03(r):
    theorems(r, ['ThForms'], [('Short', LEN(3, 5), 4), ('Mixed', LEN(3, 4), 30)])
    stream(r, 'AlMix', 'ChF', LEN(2, 3), ['Exact'])
    r.build(); r.replay(records()); r.scan()
    return r.finish('model_checking', TEXTS)
def c04(r):
    theorems(r, ['ThQuick', 'ThForms'], [('Mixed', LEN(3, 4), 30)])
    r.build(); r.replay(records()); r.scan(2); dump_and_judge(r, ['f0', 'f1', 'f2', 'f3'])
    return r.finish('model_checking', TEXTS)
def c05(r):
    blocks(r, ['QuickCommutes'])
    theorems(r, ['ThQuick'], [('Mixed', LEN(3, 4), 30), ('Latin', LEN(3, 5), 30)])
    r.build(); r.replay(records()); r.scan(3); dump_and_judge(r, ['q0', 'q1', 'q2', 'q3'])
    return r.finish('model_checking', TEXTS)
def c06(r):
    blocks(r, ['SafeCommutes', 'QuickCommutes'])
    theorems(r, ['ThProcess'], [('Short', LEN(4, 6), 4), ('Runs', LEN(3, 4), 30)])
    stream(r, 'AlS', 'ChS', LEN(4, 6), ['Exact', 'Lazy', 'EndFinal'], ['Grows'])
    r.build(); r.replay(records()); r.scan(6); dump_and_judge(r, ['ss', 'lead', 'trail'])
    return r.finish('model_checking', TEXTS)
def c07(r):
    blocks(r, ['SafeCommutes', 'QuickCommutes'])
    theorems(r, ['ThSafeQc'], [('Short', LEN(4, 6), 4), ('Runs', LEN(3, 4), 30)])
    r.build(); r.replay(records()); r.scan(6); dump_and_judge(r, ['f4', 'f5', 'q4', 'q5', 'leadq'])
    return r.finish('model_checking', TEXTS)
def c08(r):
    theorems(r, ['ThSafeKeep'], [('Short', LEN(4, 5), 4), ('Runs', LEN(3, 4), 30)])
    stream(r, 'AlS', 'ChSafe', LEN(3, 4), ['Exact'])
    r.build(); r.replay(records()); r.scan()
    return r.finish('model_checking', TEXTS)
PROF = ('every next() of 22 adapter chains over explored texts, and random histories of API calls; non-trivial: the chain holds something back, '
        'or the history has more than one kind of call')
def profiled(r):
    f = profiles()
    for n in r.bins:
        r.use('replay of specified call profiles', n, harness(r.bins[n], ['profile', *f, '--props', r.pid, '--seed', str(SEED)]))
        r.use('call profiles of frames filled with inert characters', n, harness(r.bins[n], ['profile', '--frames', profile_frames(250), '--active', active(), '--step', str(LEN(4, 1)), '--props', r.pid, '--seed', str(SEED)]))
    r.sample(f[0], 1)
    record_and_judge(r)
def c09(r):
    stream(r, 'AlMix', 'ChAll', LEN(3, 4), ['Lazy', 'SettledIsFinal', 'Bounded'], ['Grows'])
    r.build(); profiled(r)
    return r.finish('model_checking', PROF)
def c10(r):
    stream(r, 'AlMix', 'ChOne', LEN(3, 4), ['HintSound', 'EndFinal', 'Exact'], ['Grows'])
    stream(r, 'AlD', 'ChAll', 2, ['EndFinal'], ['Terminates'])
    r.build(); profiled(r); r.replay(records()[:1] + giants())
    return r.finish('model_checking', PROF)
def c11(r):
    stream(r, 'AlMix', 'ChAll', LEN(3, 4), ['Continues'])
    r.build(); profiled(r)
    for n in r.bins: r.use('replay of specified clone and print points', n, harness(r.bins[n], ['schedule', schedule_set('snaps', 'Singles', 1, 2), '--prop', 'C11']))
    return r.finish('model_checking', PROF)
def c12(r):
    stream(r, 'AlMix', 'ChOne', LEN(3, 4), ['Exact'])
    r.build(); r.replay(records()); r.scan()
    return r.finish('model_checking', TEXTS)
def c13(r):
    r.build(); r.exhaustive = True
    dump_and_judge(r, ['canon', 'compat'], ('checked-std', 'release-nostd'))
    return r.finish('model_checking', 'every scalar value, both functions; non-trivial: the character decomposes')
def c14(r):
    r.build(); r.exhaustive = THOROUGH
    d = json.load(open(DATA)); rng = random.Random(SEED)
    pairs = [x for x in d['canon'] if len(x) == 3]
    f, s = {x[1] for x in pairs}, {x[2] for x in pairs}
    L, V, T, LV = set(range(0x10ff, 0x1114)), set(range(0x1160, 0x1177)), set(range(0x11a6, 0x11c4)), set(range(0xac00, 0xd7a4, 28))
    edge = {0xabff, 0xac01, 0xac1b, 0xac1d, 0xd7a3, 0xd7a4, 0xd789, 0xd787, 0, 0x10ffff, 0x3a9, 0x2f800}
    flips = lambda c: {c ^ (1 << k) for k in range(21)} | {c & 0xffff, c & 0xfff, c - 1, c + 1}
    firsts = f | L | LV | edge | {x[0] for x in d['canon']} | {rng.randrange(0x110000) for _ in range(600)}
    seconds = s | V | T | edge
    for c in list(f): firsts |= flips(c)
    for c in list(s) + [min(V), max(V), min(T), max(T)]: seconds |= flips(c)
    ok = lambda x: sorted(c for c in x if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000)
    sets, out = os.path.join(BUILD, 'sets.%d' % os.getpid()), os.path.join(BUILD, 'pairs.%d.json' % os.getpid())
    open(sets, 'w').write(json.dumps(ok(firsts)) + '\n' + json.dumps(ok(seconds)) + '\n')
    try:
        for n in r.bins:
            every = THOROUGH and n == 'release-nostd'
            r.use('compose() of all pairs' if every else 'compose() of candidate rows and columns of the pair table', n,
                  harness(r.bins[n], ['pairs', '--sets', sets, '--out', out] + (['--all', '1'] if every else []), timeout=14000))
            if not os.path.exists(out): continue        # it died
            bad = r.judge('PairDump', n, 'PairDump', {}, ['Sound', 'Complete', 'NoRepeats', 'TableInverse', 'HangulInverse'], dict(DUMP_FILE=out))
            if bad:
                r.viols.append(('PairDump on ' + n, pair_violation(bad, out)))
            r.samples.append(str(json.load(open(out))[:3]))
            os.remove(out)
    finally:
        for x in (sets, out):
            if os.path.exists(x): os.remove(x)
    return r.finish('model_checking', 'pairs of scalar values (thorough: all; quick: all pairs with a first or second character from, near or one bit away from the candidates); non-trivial: the pair composes')

def pair_violation(bad, out):
    got = json.load(open(out))
    d = json.load(open(DATA))
    st = last_state(bad[1]) or {}
    k = st.get('at', 0)
    return dict(what='PairDump: %s is violated: %d pairs compose' % (bad[0], len(got)), input=[], expected='Compose of the specification for each of these', got=str(got[(k - 1) * 500:k * 500] if k and bad[0] == 'Sound' else got[:40])[:1500])

def c15(r):
    r.build(); r.exhaustive = True
    dump_and_judge(r, ['ccc', 'mark', 'assigned'], ('checked-std', 'release-nostd'))
    return r.finish('model_checking', 'every scalar value, three lookups, and the version; non-trivial: the value is not the default')
def c16(r):
    blocks(r, ['OthersCommute'])
    theorems(r, ['ThCjk'], [('Cjk', LEN(3, 5), 30), ('Short', LEN(3, 5), 4)])
    stream(r, 'AlV', 'ChV', LEN(4, 6), ['Exact', 'Lazy', 'EndFinal'], ['Grows'])
    r.build(); r.replay(records()); r.scan(3); dump_and_judge(r, ['cjk', 'var'])
    return r.finish('model_checking', TEXTS)

def digests(r, jobs, at_once=1):
    """[(name, build, files, args)] -> digest arrays (one number per text, 0: not computed), in the same text order"""
    import array
    out = {}
    def one(job):
        name, b, files, args = job
        f = os.path.join(BUILD, 'digest.%s.%s' % (uid(), name))
        return job, f, harness(r.bins[b], ['digest', *files, *args, '--out', f])
    with cf.ThreadPoolExecutor(at_once) as ex:
        for (name, b, files, args), f, res in ex.map(one, jobs):
            r.use('digest of all results: ' + name, b, res)
            if not os.path.exists(f): continue              # it died
            a = array.array('Q'); a.frombytes(open(f, 'rb').read()); os.remove(f)
            out[name] = a
    return out

def digest_texts(r, b, files, args, at):
    f, g = os.path.join(BUILD, 'list.%d' % os.getpid()), os.path.join(BUILD, 'digest.%d.l' % os.getpid())
    harness(r.bins[b], ['digest', *files, *args, '--out', g, '--list', f])
    l = open(f).read().splitlines()
    for x in (f, g): os.remove(x)
    return [json.loads(l[i]) for i in at]

def compare(r, ds, b, files, args, what):
    names = list(ds)
    if not names: return
    base = ds[names[0]]
    for n in names[1:]:
        if len(ds[n]) != len(base): raise Broken('digest lists differ in length')
        if ds[n] != base:
            at = [i for i in range(len(base)) if base[i] != ds[n][i] and base[i] and ds[n][i]][:5]
            if at:
              for t in digest_texts(r, b, files, args, at):
                  r.viols.append(('digests %s / %s' % (names[0], n), dict(what=what % (names[0], n), input=t, expected='the same results', got='differing results')))

def c17(r):
    n = LEN(3, 3)
    r.build()
    f = schedules()          # generated by TLC with the invariant Independent in every state
    for configs, sn, st in [('Pairs', 0, 2), ('Triples', 0, 3)]:
        r.spec('interleavings ' + configs, 'Interleave', dict(MaxNS=30, Configs=configs, MaxSnaps=sn, MaxStreams=st), ['Independent'])
    for b in r.bins:
        r.use('replay of specified interleavings', b, harness(r.bins[b], ['schedule', *f]))
    r.use('replay of specified interleavings, each step on another thread', 'checked-std', harness(r.bins['checked-std'], ['schedule', *f[:3], '--threads', '1']))
    r.sample(f[0], 2)
    record_and_judge(r)
    files = [records()[0]]
    # what a call answers after another one on a text that resembles its own
    with cf.ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda k: (k, harness(r.bins[('release-nostd', 'checked-std')[k % 7 in (2, 5)]], ['after', *files, '--active', active(), '--part', str(k), '--parts', str(LEN(7, 14)),
                                     '--share', str(LEN(2, 1)), '--seed', str(SEED)])), range(LEN(7, 14))))
    for k, x in res: r.use('calls after calls on alike texts', ('release-nostd', 'checked-std')[k % 7 in (2, 5)], x)
    ch = ['--frames', frames('frames'), '--active', active(), '--fill', str(LEN(40000, 400000)), '--chars', '1']
    orders = ['asc', 'desc', 'shuffle'] + ['mask%d' % k for k in LEN((8, 10, 12, 14, 16, 20), (4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20))]
    jobs = [('ascending' if o == 'asc' else o, ('release-nostd', 'checked-std')[k % 2], files, ch + ['--threads', '1', '--order', o, '--seed', str(SEED)]) for k, o in enumerate(orders)]
    ds = digests(r, jobs, 7)
    jobs = [('contended', 'checked-std', files, ['--contend', '1', '--threads', '4', '--order', 'shuffle', '--seed', str(SEED + 1)] + (ch if THOROUGH else []))]
    ds.update(digests(r, jobs))
    short = ds.pop('contended', None) if not THOROUGH else None
    compare(r, ds, 'release-nostd', files, ch, 'results depend on the order of use (%s, %s)')
    if short is not None and 'ascending' in ds:
        # its texts are the first ones
        base = ds['ascending'][:len(short)]
        compare(r, {'ascending': base, 'contended': short}, 'checked-std', files, [], 'results depend on concurrent use (%s, %s)')
    return r.finish('model_checking', 'all interleavings of the steps of 2 and 3 adapters, all clone/print points, random histories on up to 7 live adapters and threads, all records and scalar values in several orders; non-trivial: all')

def c18(r):
    stream(r, 'AlMix', 'ChOne', 3, ['Exact'])
    r.build(tuple(BUILDS))
    files = records()
    ch = ['--frames', frames('frames'), '--active', active(), '--fill', str(LEN(60000, 600000)), '--chars', '1']
    # one build against the specification; how the others answer the same texts and many more is compared
    tot, viols = harness(r.bins['release-std'], ['replay', *files, '--props', 'C01,C02,C05'])
    for t in tot:
        r.evals += t['evals']; r.traces += t['cases']; r.nontrivial += t['nontrivial']
        r.bound.append(dict(what='replay of specified texts', operations_of=t['prop'], build='release-std', cases=t['cases'], comparisons=t['evals'], deviations=t['violations']))
    r.sample(files[0])
    # (unoptimised code is slow: it is asked about a part of the texts)
    small, big = files[:-len(giants())], giants()
    ds = digests(r, [(b, b, small, ch + ['--stride', '1' if 'plain' not in b else str(LEN(5, 1))]) for b in BUILDS])
    if ds: compare(r, ds, list(ds)[0], small, ch, 'the builds %s and %s disagree')
    ds = digests(r, [(b, b, big, ['--stride', '1' if 'plain' not in b else str(LEN(9, 2))]) for b in BUILDS])
    if ds: compare(r, ds, list(ds)[0], big, [], 'the builds %s and %s disagree')
    return r.finish('model_checking', 'every specified text, every scalar value and filled frames, every public operation, six builds; non-trivial: all')

GEN_KINDS = ['ccc', 'mark', 'assigned', 'canon', 'compat', 'cjk', 'q0', 'q1', 'q2', 'q3', 'lead', 'trail']
GEN_PROPS = ['C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C16']

SHOW_TESTS = '''#[path = "%s"] mod t;
fn main() {
    for x in t::NORMALIZATION_TESTS {
        let l: Vec<String> = [x.source, x.nfc, x.nfd, x.nfkc, x.nfkd].iter().map(|s| format!("[{}]", s.chars().map(|c| (c as u32).to_string()).collect::<Vec<_>>().join(","))).collect();
        println!("[{}]", l.join(","));
    }
}
'''

def generated(r, k, n):
    """Runs the generator on database k and judges the crate made of its output."""
    db, der, recs = database(k), derived(k), database_records(k, n)
    what = 'Unicode 16.0' if k == 0 else 'database %d' % k
    bad = lambda w, got='', inp=(): r.viols.append(('generator on ' + what, dict(what=w, input=list(inp), expected='', got=str(got)[:1500])))
    place = os.path.join(BUILD, 'gen.%d.%d' % (os.getpid(), k))
    shutil.rmtree(place, ignore_errors=True)
    for x in ('ucd', 'out', 'repo', 'harness'): os.makedirs(os.path.join(place, x))
    p = lambda *x: os.path.join(place, *x)
    try:
        rows = [json.loads(l.strip()[1:-1].replace('\\"', '"')) for l in open(recs)]
        tests = [[x[0], x[3], x[1], x[4], x[2]] for x in rows if x[0]][:3000]
        gendb.write(json.load(open(db)), json.load(open(der)), tests, p('ucd'))
        open(p('run.py'), 'w').write(gendb.RUNNER)
        # the script names the version it is for; the databases have versions of their own
        script = open(os.path.join(REPO, 'scripts', 'unicode.py')).read()
        script, named = re.subn(r'(?m)^UNICODE_VERSION = "[0-9.]+"', 'UNICODE_VERSION = "%d.%d.%d"' % tuple(json.load(open(db))['version']), script)
        shutil.copytree(os.path.join(REPO, 'scripts'), p('scripts'))
        open(p('scripts', 'unicode.py'), 'w').write(script)
        try: g = subprocess.run([sys.executable, p('run.py'), p('ucd'), p('scripts', 'unicode.py')], cwd=p('out'), env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        except subprocess.TimeoutExpired: return bad('the generator does not finish in 200 s')
        if g.returncode != 0:
            return bad('the generator fails on the character data: exit %d' % g.returncode, g.stdout[-1200:])
        if not all(os.path.exists(p('out', x)) for x in ('tables.rs', 'normalization_tests.rs')):
            return bad('the generator does not write its output', os.listdir(p('out')))
        # the emitted conformance tests
        open(p('show.rs'), 'w').write(SHOW_TESTS % p('out', 'normalization_tests.rs'))
        c = subprocess.run(['rustc', '--edition', '2018', '-o', p('show'), p('show.rs')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=place)
        if c.returncode != 0: bad('the emitted conformance tests do not compile', c.stdout[-1200:])
        else:
            got = [json.loads(l) for l in subprocess.run([p('show')], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
            r.evals += len(tests); r.traces += len(tests)
            if got != tests:
                i = next((i for i in range(min(len(got), len(tests))) if got[i] != tests[i]), min(len(got), len(tests)))
                bad('emitted conformance test %d of %d (file has %d)' % (i, len(got), len(tests)), dict(file=tests[i:i + 1], emitted=got[i:i + 1]))
        # the crate with the emitted tables
        shutil.copytree(os.path.join(REPO, 'src'), p('repo', 'src')); shutil.copy(os.path.join(REPO, 'Cargo.toml'), p('repo'))
        for x in ('benches', 'tests'):
            if os.path.isdir(os.path.join(REPO, x)): shutil.copytree(os.path.join(REPO, x), p('repo', x))
        shutil.copy(p('out', 'tables.rs'), p('repo', 'src', 'tables.rs'))
        shutil.copytree(os.path.join(HARNESS, 'src'), p('harness', 'src')); shutil.copy(os.path.join(HARNESS, 'Cargo.lock'), p('harness'))
        open(p('harness', 'Cargo.toml'), 'w').write(open(os.path.join(HARNESS, 'Cargo.toml')).read().replace('"/repo"', '"%s"' % p('repo')))
        b = build(['release-std'], p('harness'), p('target'))['release-std']
        if isinstance(b, Broken): return bad('the crate does not compile with the emitted tables', b)
        f = p('dump.json')
        _, v = harness(b, ['dump', '--kinds', ','.join(GEN_KINDS), '--out', f, '--prop', 'C19'])
        r.viols += [('generator on ' + what, x) for x in v]
        r.evals += len(GEN_KINDS) * 1112064; r.traces += len(GEN_KINDS) * 1112064
        if not os.path.exists(f): return                # it died
        x = r.judge('CharDump of the generated crate', what, 'CharDump', dict(MaxNS=30, Kinds='{%s}' % ', '.join(map(q, GEN_KINDS))), ['Agrees'] + (['VersionAgrees'] if k == 0 or named == 1 else []), dict(DUMP_FILE=f), ucd=db)
        if x:
            st = last_state(x[1]) or {}
            rows = json.load(open(f)).get(st.get('kd', ''), [])
            i = st.get('blk', -1)
            bad('%s: "%s" of the characters from U+%04X' % (x[0], st.get('kd'), max(i, 0) * 1024), rows[i] if 0 <= i < len(rows) else json.load(open(f))['version'], [max(i, 0) * 1024])
        d = json.load(open(db))
        prs = [m for m in d['canon'] if len(m) == 3]
        ok = lambda s: sorted(c for c in s if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000)
        fs = ok({m[1] for m in prs} | {m[1] & 0xffff for m in prs} | set(range(0x1100, 0x1113)) | set(range(0xac00, 0xd7a4, 28)))
        ss = ok({m[2] for m in prs} | {m[2] & 0xffff for m in prs})
        open(p('sets'), 'w').write(json.dumps(fs) + '\n' + json.dumps(ss) + '\n')
        _, v = harness(b, ['pairs', '--sets', p('sets'), '--out', p('pairs.json')])
        r.viols += [('generator on ' + what, y) for y in v]
        if not os.path.exists(p('pairs.json')): return
        x = r.judge('PairDump of the generated crate', what, 'PairDump', {}, ['Sound', 'Complete', 'NoRepeats', 'TableInverse', 'HangulInverse'], dict(DUMP_FILE=p('pairs.json')), ucd=db)
        if x: r.viols.append(('generator on ' + what, pair_violation(x, p('pairs.json'))))
        tot, v = harness(b, ['replay', recs, '--props', ','.join(GEN_PROPS)])
        for t in tot: r.evals += t['evals']; r.traces += t['cases']; r.nontrivial += t['nontrivial']
        r.bound.append(dict(what='generator on ' + what, tests=len(tests), code_points_judged=len(GEN_KINDS) * 1112064, texts_replayed=sum(t['cases'] for t in tot), deviations=sum(t['violations'] for t in tot)))
        r.viols += [('generator on ' + what, y) for y in v]
    finally:
        shutil.rmtree(place, ignore_errors=True)

def c19(r):
    ks = [0, 1, 2, 101] if not THOROUGH else [*range(13), *range(101, 113)]
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(lambda k: (derived(k), database_records(k, 6000)), ks))
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda k: generated(r, k, 6000), ks))
    r.sample(database_records(1, 6000))
    return r.finish('model_checking', 'the generator run on Unicode 16.0 and on databases that differ from it in mappings, classes, exclusions, variants and assignment; every scalar value, candidate pairs, and texts of each; non-trivial: the text is changed')

def c20(r):
    theorems(r, ['ThLocal', 'ThSafeLocal'], [('Mixed', LEN(3, 4), 30), ('Short', LEN(3, 5), 4)])
    r.build(); r.replay(records()); r.scan()
    return r.finish('model_checking', 'texts joined at the boundaries the specification names, 2 to 1500 at a time; non-trivial: the normal form differs from the text')
def c21(r):
    theorems(r, ['ThBounds'], [('Mixed', LEN(3, 4), 30), ('Short', LEN(3, 5), 4)])
    stream(r, 'AlD', 'ChOne', LEN(2, 3), ['Expansion'], ['Terminates'])
    r.build(('checked-std', 'release-nostd', 'plain-std'))
    for n in r.bins:
        try: r.use('very large texts', n, harness(r.bins[n], ['giants', '--scale', str(LEN(1, 2 if 'plain' in n else 20)), '--million', '0' if 'plain' in n else '1500000', '--seed', str(SEED), '--patience', '100'], timeout=LEN(400, 3000)))
        except subprocess.TimeoutExpired: r.found([('very large texts in ' + n, dict(what='the operations on very large texts take more than %d s in all' % LEN(400, 3000), input=[], expected='', got=''))])
    two = ('checked-std', 'release-nostd')
    r.replay(records(), builds=two); r.scan(builds=two)
    return r.finish('model_checking', TEXTS)

def c22(r):
    for alpha, n, maxns in [('Short', LEN(2, 3), 4), ('Mixed', LEN(1, 2), 4), ('Hangul', LEN(2, 2), 30), ('Indic', LEN(2, 2), 30)]:
        r.spec('endless ' + alpha, 'Endless', dict(MaxNS=maxns, Alpha=alpha, MaxPer=n, Leads='LeadSet', Chains='ChainList', Calls=1), ['HeldIsBounded', 'Responsive'], ['Alive'], spec=True)
    r.build()
    f = endless()
    for n in r.bins:
        r.use('adapters over endless sources', n, harness(r.bins[n], ['endless', *f, '--prop', r.pid, '--share', str(LEN(6, 1)), '--items', str(LEN(200000, 1000000)), '--seed', str(SEED), '--patience', '60']))
    r.sample(f[0], 2)
    return r.finish('model_checking', 'a first part and 1 to k pieces of 17 alphabets repeated for ever, 19 chains: the first calls and, for a part of them and for endless random texts, hundreds of thousands more; non-trivial: all')

CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15,
              C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    bad = [b for b in build(tuple(BUILDS)).values() if isinstance(b, Broken)]
    if bad: say(bad[0])
    say('builds %.0f s' % (time.time() - t))
    records(); frames('frames'); frames('likes'); profiles(); profile_frames(250); schedules(); endless()
    for k in (0, 1, 2, 101): derived(k); database_records(k, 6000)
    say('setup done in %.0f s' % (time.time() - t))

def main():
    os.makedirs(BUILD, exist_ok=True)
    try:
        if sys.argv[1] == 'setup':
            setup()
            return 0
        pid = sys.argv[2]
        r = Run(pid)
        try: return CHECKS[pid](r)
        except Enough: return r.finish('model_checking', 'stopped at the first violation')
    except Broken as e:
        say('ERROR: ' + str(e))
        return 2
    except subprocess.TimeoutExpired as e:
        say('ERROR: out of time: ' + str(e)[:500])
        return 2
    except Exception:
        import traceback
        say('ERROR: ' + traceback.format_exc()[-3000:])
        return 2

if __name__ == '__main__': sys.exit(main())
