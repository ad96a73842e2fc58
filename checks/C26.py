"""C26: the JavaScript binding returns what the library returns."""
import multiprocessing, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import binding, build, check, drv
from binding import line, compare, expected

RULE = ('seeded histories of calls on the JavaScript binding of the working tree (several instances, all setters, lexicon and hostile words, texts of several paragraphs, embedded null characters, '
        'characters outside the BMP, over-long words, failing constructions, use after terminate) executed in node over a stand-in for the Emscripten runtime whose heap tracks every block (reads and writes '
        'outside live blocks, releases with the wrong function, blocks left behind by a call) and whose C functions are answered by the real library; oracle: the answers of the C interface to the same '
        'history, in UTF-16 positions. A case is one call; non-trivial when the expected answer is not empty; distinct by call and answer')
WORKER = build.HARNESS + '/js_worker.js'
API = build.REPO + '/libvoikko/js/libvoikko_api.js'
hangs = multiprocessing.Value('i', 0)


def worker(calls, timeout=60):
    to_r, to_w = os.pipe()
    from_r, from_w = os.pipe()
    env = {k: v for k, v in os.environ.items() if not k.startswith(('VOIKKO', 'NODE', 'DRV'))}
    env.update(LC_ALL='C.UTF-8', HOME='/nonexistent')
    lib = None
    try:
        lib = subprocess.Popen([build.harness('plain', 'drv')], stdin=to_r, stdout=from_w, stderr=subprocess.DEVNULL, env=dict(env, DRV_FLUSH='1'))
        os.close(to_r)
        os.close(from_w)
        data = ''.join(line(c) + '\n' for c in calls)
        # the worker finds the driver behind its descriptors 3 and 4
        sh = 'exec 3>&%d 4<&%d; exec node --stack-size=4000 "$0" "$1"' % (to_w, from_r)
        p = subprocess.run(['bash', '-c', sh, WORKER, API], input=data.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, pass_fds=(to_w, from_r))
        return p.returncode, p.stdout.decode('utf-8', 'replace').split('\n')[:-1], p.stderr.decode('utf-8', 'replace')
    finally:
        os.close(to_w)
        os.close(from_r)
        if lib:
            lib.kill()
            lib.wait()


def judge(o, calls, info=None):
    if hangs.value > 2:
        return False
    want = expected(o, calls, 'js')
    if want is None:
        return False
    got = None
    for _ in range(2):
        try:
            rc, got, err = worker(calls)
            break
        except subprocess.TimeoutExpired as e:
            k = (e.stdout or b'').count(b'\n')
    if got is None:
        hangs.value += 1
        o.violation('hang:%s' % (calls[k][0].lstrip('*') if k < len(calls) else ''), 'no answer within the watchdog time (twice) in %r' % (calls[k:k + 1],), {'call': calls[k:k + 1], 'history': calls[:k + 1][-60:]})
        return False
    if got and got[-1].startswith('#calls '):
        o.stat('calls of C functions by the binding', int(got.pop().split()[1]))
    if rc or len(got) != len(calls):
        at = calls[len(got)] if len(got) < len(calls) else None
        o.violation('died:%s' % (at[0].lstrip('*') if at else ''), 'the JavaScript process died (status %s) in %r: %s %s' % (rc, at, err[-600:], ' '.join(got[-1:])[-300:]),
                    {'call': at, 'stderr': err[-3000:], 'answers': len(got), 'history': calls[:len(got) + 1][-60:]})
        return False
    return compare(o, calls, got, want, 'JavaScript', info)


def usable(calls):
    return [c for c in calls if not (c[0] == 'set' and c[2] == 'setSpellerCacheSize')]


def history(o, idx, n):
    judge(o, usable(binding.program(o.rng, n, java='js')))
    o.stat('histories')


def options(o, idx):
    """every setter with every value, then calls that tell the options apart"""
    names = [(s, v) for s in sorted(binding.SETTERS) for v in ('true', 'false')] + [('setMinHyphenatedWordLength', 3), ('setMinHyphenatedWordLength', 8), ('setSuggestionStrategy', 'OCR'),
             ('setSuggestionStrategy', 'TYPO'), ('setSuggestionStrategy', 'BADSTRATEGY')]
    calls = []
    for h, s in enumerate(names[idx::8]):
        calls.append(('new', h, 'fi-x-full', build.dict_full()))
        if s[1] in ('false', 'TYPO'):
            calls.append(('set', h, s[0], {'false': 'true', 'TYPO': 'OCR'}[s[1]]))
        calls += [('set', h) + s] + binding.battery(h) + [('term', h)]
        o.stat('setters and values')
    judge(o, calls)


def misc(o, idx):
    r = o.rng
    d = r.choice((build.dict_full(), build.dict_more(), build.dict_svfst()))
    good = sorted(binding.GOOD())
    calls = [('load',)]
    for g in [r.choice(good) for _ in range(3)]:
        calls += [('*newterm', 0) + g]
    for g in (('xx', d), ('', d), ('fi-x-nosuch', None), (None, None), ('fi', '/nonexistent'), ('x' * 300, d), ('fi-x-\u00e4', d)):
        calls += [('*newterm', 0) + g, ('new', 9) + g]
    calls += [('new', 1, 'fi-x-full', build.dict_full()), ('term', 1), ('term', 1)]
    calls += [(c[0], 1) + c[1:] for c in binding.DEADCALLS] + [('sp', 1, 'a\0'), ('tk', 1, ''), ('st', 1, ''), ('sg', 1, '\0'), ('hp', 1, '\0'), ('hd', 1, '\0'), ('an', 1, '\0'), ('gr', 1, '\0', 'fi'), ('av', 1, '\0')]
    calls += [('new', 2, 'fi-x-full', build.dict_full()), ('new', 3, 'xx', d), ('sp', 2, 'koira'), ('term', 2)]
    judge(o, calls)


def lengths(o, idx):
    """words of every length around the limits"""
    r = o.rng
    calls = [('new', 0, 'fi-x-full', build.dict_full())]
    for n in (0, 1, 2, 50, 99, 100, 253, 254, 255, 256, 257, 300, 509, 510, 511, 512, 1000, 5000):
        for f in ('a', 'ä', 'kissa', '-', '\u00ad', '\U0001f642', 'koira-', '.')[idx::8]:
            w = (f * (n // len(f) + 1))[:n]
            calls += [(op, 0, w) for op in ('sp', '*hp', '*hd', '*an', 'tk', 'st')] + [('gr', 0, w, 'fi'), ('*hy', 0, w, r.choice(('-', '\u00ad', 'xyz')), r.randrange(2))]
            if n < 300:
                calls.append(('*sg', 0, w))
    judge(o, calls)


def astral(o, idx, n):
    """characters outside the BMP before, in and after what the library reports"""
    r = o.rng
    A = ('\U0001f642', '\U00010400', '\U0010ffff', '\U00020000', '\u20ac', '\u00e4', 'e\u0301', '\ufeff')
    calls = [('new', 0, 'fi-x-full', build.dict_full())]
    for _ in range(n):
        t = ' '.join(r.choice(binding.TEXTS) for _ in range(r.randrange(1, 4)))
        for _ in range(r.randrange(1, 6)):
            p = r.choice((0, len(t), r.randrange(len(t) + 1), max(t.rfind(' '), 0), max(t.find('.'), 0)))
            t = t[:p] + r.choice(A) * r.choice((1, 1, 2, 5)) + r.choice(('', ' ', '. ', '\n')) + t[p:]
        calls += [('*tk', 0, t), ('*st', 0, t), ('*gr', 0, t, r.choice(('fi', 'en')))]
        w = r.choice(binding.WORDS)
        p = r.randrange(len(w) + 1)
        w = w[:p] + r.choice(A) + w[p:]
        calls += [('*hp', 0, w), ('*hd', 0, w), ('*an', 0, w), ('sp', 0, w)]
    judge(o, calls)


def body(c):
    build.harness('plain', 'drv')
    binding.GOOD()
    c.shards(options, 8)
    c.shards(misc, c.n(4, 40))
    c.shards(lengths, 8)
    c.shards(astral, c.n(8, 100), 30)
    c.shards(history, c.n(64, 1500), 260)
    c.need = 500


check.main('C26', RULE, body, assumptions=['texts are valid Unicode (no lone surrogates)', 'the Emscripten runtime is a stand-in with the documented behaviour of its functions; node ' + subprocess.run(['node', '--version'], stdout=subprocess.PIPE).stdout.decode().strip()])
