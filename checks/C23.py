"""C23: the Python binding returns what the library returns."""
import multiprocessing, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import binding, build, check, gen
from binding import line, compare, expected

RULE = ('seeded histories of calls on the Python binding of the working tree (several instances, all setters, lexicon and hostile words, texts of several paragraphs, embedded null characters, characters '
        'outside the BMP, over-long words, failing constructions, use after terminate, one instance per thread) executed in a Python process on a build of the library that counts its live allocations and '
        'overwrites what is released; oracle: the answers of the C interface to the same history through the C driver, in Python positions; and no growth of live allocations over repeated calls. '
        'A case is one call; non-trivial when the expected answer is not empty; distinct by call and answer')

hangs = multiprocessing.Value('i', 0)


def worker(calls_groups, timeout=90):
    tmp = tempfile.mkdtemp(prefix='c23')
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith(('VOIKKO', 'PYTHON'))}
        env.update(PYTHONPATH=build.REPO + '/libvoikko/python', PYTHONPYCACHEPREFIX=tmp, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', HOME='/nonexistent', PYTHONUTF8='1')
        data = '||\n'.join(''.join(line(c) + '\n' for c in g) for g in calls_groups)
        p = subprocess.run([sys.executable, build.HARNESS + '/pyworker.py', binding.bindlib()], input=data.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace').split('\n')[:-1], p.stderr.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(o, groups, info=None):
    if hangs.value > 2:
        return False
    wants = []
    for g in groups:
        w = expected(o, g)
        if w is None:
            return False
        wants.append(w)
    try:
        rc, got, err = worker(groups)
    except subprocess.TimeoutExpired:
        try:
            rc, got, err = worker(groups)
        except subprocess.TimeoutExpired as e:
            hangs.value += 1
            k = (e.stdout or b'').count(b'\n')
            at = groups[0][k] if len(groups) == 1 and k < len(groups[0]) else None
            o.violation('hang:%s' % (at[0].lstrip('*') if at else 'threads'), 'no answer within the watchdog time (twice) in %r' % (at,), {'call': at, 'history': groups[0][:k + 1][-60:]})
            return False
    n = sum(map(len, groups))
    if rc or len(got) != n:
        at = groups[0][len(got)] if len(groups) == 1 and len(got) < n else None
        k = 'died:%s' % (at[0].lstrip('*') if at else 'threads')
        o.violation(k, 'the Python process died (status %s) in %r: %s' % (rc, at, err[-800:]), {'call': at, 'stderr': err[-3000:], 'answers': len(got), 'history': groups[0][:len(got) + 1][-60:]})
        return False
    ok = True
    for g, w in zip(groups, wants):
        ok &= compare(o, g, got[:len(g)], w, 'Python', info)
        got = got[len(g):]
    return ok


def history(o, idx, n):
    judge(o, [binding.program(o.rng, n)])
    o.stat('histories')


def threads(o, idx, n):
    """an instance of its own for each thread"""
    k = o.rng.randrange(2, 5)
    judge(o, [binding.program(o.rng, n, star=0, heavy=0.03, base=10 * (t + 1)) for t in range(k)])
    o.stat('threads', k)


def options(o, idx):
    """every setter with every value, then calls that tell the options apart"""
    names = [(s, v) for s in sorted(binding.SETTERS) for v in ('true', 'false')] + [('setMinHyphenatedWordLength', 3), ('setMinHyphenatedWordLength', 8), ('setSpellerCacheSize', -1), ('setSpellerCacheSize', 2),
             ('setSuggestionStrategy', 'OCR'), ('setSuggestionStrategy', 'TYPO'), None]
    s = names[idx]
    d = build.dict_full()
    h = 0
    # the opposite first, so that a setter that does nothing or always the same shows
    first = [('new', h, 'fi-x-full', d)]
    if s and s[0] in binding.SETTERS:
        first.append(('bo', h, binding.SETTERS[s[0]], int(s[1] != 'true')))
    if s and s[0] == 'setSuggestionStrategy':
        first.append(('bo', h, 8, int(s[1] == 'TYPO')))
    calls = first + ([('set', h) + s] if s else []) + binding.battery(h)
    if judge(o, [calls], s) and s:
        a, b = expected(o, calls), expected(o, first + [('ver',)] + binding.battery(h))
        if a and b and a[-len(binding.battery(h)):] != b[-len(binding.battery(h)):]:
            o.stat('options whose effect the calls show')
            o.stat('effect of ' + s[0])


def misc(o, idx):
    r = o.rng
    d = r.choice((build.dict_full(), build.dict_more(), build.dict_svfst()))
    calls = [('ver',)]
    for op in ('ld', 'ls', 'lh', 'lg'):
        calls += [('*' + op, p) for p in (d, None, '/nonexistent', '')]
    for _ in range(10):
        ds = [tuple(r.choice(('', 'a', 'b', 'fi', 'sv', 'ä', 'Z')) for _ in range(4)) for _ in range(r.randrange(1, 7))]
        calls.append(('sort', ds))
    good = sorted(binding.GOOD())
    for g in [r.choice(good) for _ in range(3)]:
        calls += [('*newterm', 0) + g + (0,), ('*newterm', 0) + g + (1,)]
    for g in (('xx', d), ('', d), ('fi-x-nosuch', None)):
        calls.append(('newterm', 0) + g + (r.randrange(2),))
    # after terminate
    calls += [('new', 1, 'fi-x-full', build.dict_full()), ('term', 1), ('term', 1)]
    calls += [(c[0], 1) + c[1:] for c in binding.DEADCALLS]
    # a failed construction leaves nothing behind and breaks nothing
    calls += [('new', 2, 'fi-x-full', build.dict_full()), ('new', 3, 'xx', d), ('sp', 2, 'koira'), ('del', 2)]
    # dictionaries with names and paths outside ASCII
    tmp = tempfile.mkdtemp(prefix='c23ä🙂')
    try:
        binding.exotic(r, tmp)
        calls += [('*' + op, tmp) for op in ('ld', 'ls', 'lh', 'lg')] + [('new', 4, 'fi-x-aaa', tmp), ('sp', 4, 'koira'), ('del', 4)]
        judge(o, [calls])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def lengths(o, idx):
    """words of every length around the limits"""
    r = o.rng
    calls = [('new', 0, 'fi-x-full', build.dict_full())]
    for n in (0, 1, 2, 50, 99, 100, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 1000, 5000):
        for f in ('a', 'ä', 'kissa', '-', '\u00ad', '\U0001f642', 'koira-', '.')[idx::2]:
            w = (f * (n // len(f) + 1))[:n]
            calls += [(op, 0, w) for op in ('sp', 'hp', 'hd', 'an', 'tk', 'st')] + [('gr', 0, w, 'fi'), ('hy', 0, w, r.choice(('-', '\u00ad', 'xyz')), r.randrange(2))]
            if n < 300:
                calls.append(('sg', 0, w))
    judge(o, [calls])


def body(c):
    build.harness('plain', 'drv')
    binding.bindlib()
    binding.GOOD()
    c.shards(options, 13 * 2 + 7)
    c.shards(misc, c.n(6, 60))
    c.shards(lengths, 2)
    c.shards(history, c.n(160, 3000), 140)
    c.shards(threads, c.n(8, 200), 60)
    c.need = 500


check.main('C23', RULE, body, assumptions=['texts are valid Unicode (no lone surrogates)', 'instances are not shared between threads (the binding documents that)'])
