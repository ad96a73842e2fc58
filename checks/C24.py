"""C24: the Java binding returns what the library returns."""
import multiprocessing, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import binding, build, check
from binding import line, compare, expected, DEAD

RULE = ('seeded histories of calls on the Java binding compiled from the working tree (several instances, all setters, lexicon and hostile words, texts of several paragraphs, embedded null characters, '
        'characters outside the BMP, over-long words, failing constructions, use after terminate, one instance shared by several threads, terminate during use) executed in a JVM on a build of the library '
        'that counts its live allocations and overwrites what is released; oracle: the answers of the C interface to the same history through the C driver, in UTF-16 positions; and no growth of live '
        'allocations over repeated calls. A case is one call; non-trivial when the expected answer is not empty; distinct by call and answer')
JNA = '/usr/share/java/jna.jar'


def classes():
    src = build.REPO + '/libvoikko/java/src/main/java'
    worker = build.HARNESS + '/JavaWorker.java'

    def make(dest):
        files = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in sorted(fs) if f.endswith('.java') and not f.startswith('module-info')]
        build.run(['javac', '-nowarn', '-Xlint:none', '-encoding', 'UTF-8', '-cp', JNA, '-d', dest, worker] + files)
    return build.artefact('java', build.tree_hash([src, worker]), make)

hangs = multiprocessing.Value('i', 0)


def worker(groups, timeout=90):
    tmp = tempfile.mkdtemp(prefix='c24')
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith(('VOIKKO', 'JAVA', '_JAVA', 'JDK'))}
        env.update(LC_ALL='C.UTF-8', HOME='/nonexistent')
        data = '||\n'.join(''.join(line(c) + '\n' for c in g) for g in groups)
        p = subprocess.run(['java', '-Xmx512m', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:-UsePerfData', '-XX:ErrorFile=/dev/null', '-XX:-CreateCoredumpOnCrash', '-Djna.tmpdir=' + tmp,
                            '-Djava.io.tmpdir=' + tmp, '-Djna.library.path=' + binding.bindlib(), '-cp', classes() + ':' + JNA, 'JavaWorker', binding.bindlib()],
                           input=data.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=tmp)
        return p.returncode, p.stdout.decode('utf-8', 'replace').split('\n')[:-1], p.stderr.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def died(o, groups, rc, got, err, out):
    n = sum(map(len, groups))
    if rc or len(got) != n:
        at = groups[0][len(got)] if len(groups) == 1 and len(got) < n else None
        k = 'died:%s' % (at[0].lstrip('*') if at else 'threads')
        o.violation(k, 'the Java process died (status %s) in %r: %s %s' % (rc, at, err[-500:], ' '.join(got[-20:])[-800:]), {'call': at, 'stderr': err[-3000:], 'answers': len(got), 'history': groups[0][:len(got) + 1][-60:]})
        return True
    return False


def judge(o, groups, info=None):
    """one group of calls; or a first group and then groups that run at the same time on its instances"""
    if hangs.value > 2:
        return False
    wants = []
    for i, g in enumerate(groups):
        w = expected(o, (groups[0] if i else []) + g, True)
        if w is None:
            return False
        wants.append(w[-len(g):])
    try:
        rc, got, err = worker(groups)
    except subprocess.TimeoutExpired:
        try:
            rc, got, err = worker(groups)
        except subprocess.TimeoutExpired as e:
            hangs.value += 1
            k = (e.stdout or b'').count(b'\n')
            at = groups[0][k] if len(groups) == 1 and k < len(groups[0]) else None
            o.violation('hang:%s' % (at[0].lstrip('*') if at else 'threads'), 'no answer within the watchdog time (twice) in %r' % (at,), {'call': at, 'history': groups[0][:k + 1][-60:]})
            return False
    if died(o, groups, rc, got, err, got):
        return False
    ok = True
    for i, (g, w) in enumerate(zip(groups, wants)):
        a = got[:len(g)]
        got = got[len(g):]
        if info == 'terminated' and i:
            # from some point on every call is refused
            cut = next((k for k, z in enumerate(a) if z == DEAD), len(a))
            o.stat('calls refused after terminate during use', len(a) - cut)
            o.stat('calls answered before terminate during use', cut)
            w = w[:cut] + [DEAD] * (len(w) - cut)
        ok &= compare(o, g, a, w, 'Java', info)
    return ok


def history(o, idx, n):
    judge(o, [binding.program(o.rng, n, java=True)])
    o.stat('histories')


def shared(o, idx, n):
    """one instance used from several threads"""
    r = o.rng
    first = [('new', 0) + r.choice([g for g in sorted(binding.GOOD()) if g[0] in ('fi-x-full', 'fi')])] + [binding.setter(r, 0, True) for _ in range(r.randrange(5))]
    mix = r.choice((('hd', 'hp', 'hy'), ('hy', 'sp', 'an', 'hp'), None, ('gr', 'tk', 'sp', 'hd'), ('an', 'av', 'hd')))
    groups = []
    for t in range(r.randrange(2, 6)):
        g = []
        while len(g) < n:
            c = binding.call(r, 0, True, 0.01)
            if mix is None or c[0] in mix:
                g.append(c)
        groups.append(g)
    end = idx % 3 == 0
    if end:
        groups.append([c for c in groups[0][:r.randrange(1, n // 2)] if c[0] != 'sg'] + [('term', 0)])
    judge(o, [first] + groups, 'terminated' if end else None)
    o.stat('threads on a shared instance', len(groups))


def options(o, idx):
    """every setter with every value, then calls that tell the options apart"""
    names = [(s, v) for s in sorted(binding.SETTERS) for v in ('true', 'false')] + [('setMinHyphenatedWordLength', 3), ('setMinHyphenatedWordLength', 8), ('setSpellerCacheSize', -1), ('setSpellerCacheSize', 2),
             ('setSuggestionStrategy', 'OCR'), ('setSuggestionStrategy', 'TYPO')]
    names = names[idx::8]
    d = build.dict_full()
    calls = []
    for h, s in enumerate(names):
        first = [('new', h, 'fi-x-full', d)]
        if s[1] in ('false', 'TYPO'):
            first.append(('set', h, s[0], {'false': 'true', 'TYPO': 'OCR'}[s[1]]))
        calls += first + [('set', h) + s] + binding.battery(h)
        o.stat('setters and values')
    judge(o, [calls])


def misc(o, idx):
    r = o.rng
    d = r.choice((build.dict_full(), build.dict_more(), build.dict_svfst()))
    calls = [('*ld', p) for p in (d, None, '/nonexistent', '')]
    for _ in range(10):
        calls.append(('sort', [tuple(r.choice(('', 'a', 'b', 'fi', 'sv', 'ä', 'Z')) for _ in range(4)) for _ in range(r.randrange(1, 7))]))
    good = sorted(binding.GOOD())
    for g in [r.choice(good) for _ in range(3)]:
        calls += [('*newterm', 0) + g + (1,)]
    for g in (('xx', d), ('', d), ('fi-x-nosuch', None)):
        calls.append(('newterm', 0) + g + (r.randrange(2),))
    calls += [('new', 1, 'fi-x-full', build.dict_full()), ('term', 1), ('term', 1)]
    calls += [(c[0], 1) + c[1:] for c in binding.DEADCALLS] + [('sp', 1, 'a\0'), ('tk', 1, ''), ('st', 1, ''), ('sg', 1, '\0'), ('hp', 1, '\0'), ('hd', 1, '\0'), ('an', 1, '\0'), ('gr', 1, '\0', 'fi'), ('av', 1, '\0')]
    calls += [('new', 2, 'fi-x-full', build.dict_full()), ('new', 3, 'xx', d), ('sp', 2, 'koira'), ('term', 2)]
    tmp = tempfile.mkdtemp(prefix='c24ä\U0001f642')
    try:
        binding.exotic(r, tmp)
        calls += [('*ld', tmp), ('new', 4, 'fi-x-aaa', tmp), ('sp', 4, 'koira'), ('term', 4)]
        judge(o, [calls])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def lengths(o, idx):
    """words of every length around the limits"""
    r = o.rng
    calls = [('new', 0, 'fi-x-full', build.dict_full())]
    for n in (0, 1, 2, 50, 99, 100, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 1000, 5000):
        for f in ('a', 'ä', 'kissa', '-', '\u00ad', '\U0001f642', 'koira-', '.')[idx::2]:
            w = (f * (n // len(f) + 1))[:n]
            calls += [(op, 0, w) for op in ('sp', 'hp', 'hd', 'an', 'tk', 'st')] + [('gr', 0, w, 'fi'), ('hy', 0, w, r.choice(('-', '\u00ad', 'xyz')), r.randrange(2))]
            if n < 300:
                calls.append(('sg', 0, w))
    judge(o, [calls])


def body(c):
    build.harness('plain', 'drv')
    binding.bindlib()
    classes()
    binding.GOOD()
    c.shards(options, 8)
    c.shards(misc, c.n(4, 40))
    c.shards(lengths, 2)
    c.shards(history, c.n(88, 1500), 260)
    c.shards(shared, c.n(24, 400), 60, procs=4)
    c.need = 500


check.main('C24', RULE, body, assumptions=['texts are valid Unicode (no lone surrogates)', 'JNA ' + JNA])
