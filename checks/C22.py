"""C22: the other command-line tools report exactly what the library says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, toolrun, words, work
from drv import U
from toolrun import decode, first_diff

RULE = ('voikkohyphenate and voikkogc are run on seeded input (lexicon words and texts, hostile, over-long, empty and malformed lines, embedded null characters, with and without a final newline) '
        'with seeded options in the plain and the AddressSanitizer build; monitor: standard output byte for byte what the library answers line by line through its own interface with the corresponding '
        'options, the reports about over-long lines and the exit status; refusal of unknown options. A case is one line of input; non-trivial when it is neither skipped nor empty; distinct by '
        'line, options and dictionary')
DICTS = ['full'] * 6 + ['svfst', 'ids', 'swap', 'bare', 'nospell', 'err']
MAXP = 100000


def where(r):
    n = r.choice(DICTS)
    c = work.init(0, n).split('\t')
    return n, c


def runtool(o, variant, name, args, data, want, toolong, msg, wit):
    p = toolrun.tool(variant, name, args, data, drv.ASAN_ENV if variant == 'asan' else None)
    o.stat('%s runs (%s)' % (name, variant))
    w = dict(wit, args=args, stderr=p.stderr[-2000:].decode('utf-8', 'replace'))
    if p.returncode:
        o.violation(name + '-status', '%s %s ends with status %d: %s' % (name, ' '.join(args[4:]), p.returncode, p.stderr[-600:].decode('utf-8', 'replace')), w)
    elif p.stdout != want:
        o.violation(name + '-output', '%s %s prints something else than the library says: %s' % (name, ' '.join(args[4:]), first_diff(p.stdout, want)), w)
    elif p.stderr.count(msg) != toolong:
        o.violation(name + '-toolong', '%s reports %d over-long lines, there are %d' % (name, p.stderr.count(msg), toolong), w)


def finish(r, data):
    return b'\n'.join(data) + (b'\n' if data and r.random() < 0.8 else b'')


def mangle(r, b):
    k = r.random()
    if k < 0.02:
        return toolrun.spoil(r, b)
    if k < 0.03:
        return b + b'\0' + b'xyz'
    if k < 0.035:
        return b'\0' + b
    if k < 0.05:
        return b''
    if k < 0.06:
        return b + r.choice((b' ', b'\r', b'\t'))
    return b


def hyphenate(o, idx, n, variant):
    r = o.rng
    name, c = where(r)
    args, lib = ['-p', build_path(c), '-d', lang(c)], ['bo\t0\t4\t0']
    sep = '-'
    for a, opt in (('no_ugly_hyphenation', 4), ('ignore_dot', 0), ('hyphenate_unknown_words', 15)):
        if r.random() < 0.35:
            v = r.randrange(2)
            args.append('%s=%d' % (a, v))
            lib.append('bo\t0\t%d\t%d' % (opt, v))
    if r.random() < 0.3:
        v = r.choice((-1, 0, 1, 2, 3, 4, 5, 7, 10, 30))
        args.append('min_hyphenated_word_length=%d' % v)
        lib.append('io\t0\t9\t%d' % max(2, v))
    if r.random() < 0.4:
        sep = r.choice('-+=|. x-')
        args.append('-s' + sep)
    tail = args[4:]
    r.shuffle(tail)
    args[4:] = tail
    data = []
    for _ in range(n):
        k = r.random()
        if k < 0.75:
            w = words.word(r)
        elif k < 0.85:
            w = words.syllables(r)
        elif k < 0.95:
            w = gen.word(r, 0.5)
        else:
            w = r.choice(('a', 'ä', 'aa-', 'kissa')) * r.choice((50, 85, 100, 127, 128, 255, 256, 300))
            w = w[:r.choice((254, 255, 256, 257))]
        data.append(mangle(r, toolrun.encode(w)))
    ws = [decode(b) for b in data]
    res = o.run(['\t'.join(c)] + lib + ['hyU\t0\t' + U(w) for w in ws if w is not None], timeout=400)
    if res is None:
        return
    res = iter(res[1 + len(lib):])
    out = []
    for w in ws:
        if w is None:
            continue
        o.case((name, tuple(tail), w) if w else None)
        pat = drv.dec_pattern(next(res))
        if pat is None:
            continue
        x = ''
        for ch, p in zip(w, pat):
            if p != ' ':
                x += sep
            if p != '=' or sep != '-':
                x += ch
        out.append(x)
    want = ''.join(x + '\n' for x in out).encode('utf-8')
    runtool(o, variant, 'voikkohyphenate', args, finish(r, data), want, toolrun.toolong(data), b'E: Too long word', {'dictionary': name})
    o.stat('words hyphenated', len(out))
    o.sample({'tool': 'voikkohyphenate', 'options': tail, 'lines': len(data), 'output head': want[:100].decode('utf-8', 'replace')})


def build_path(c):
    return drv.unC(c[3]) if not c[3].startswith('@') else drv.unC(c[3][1:])


def lang(c):
    return drv.unC(c[2])


KINDS = {1: 'W', 2: 'P', 3: 'S', 4: 'U'}


def grammar(o, idx, n, variant):
    r = o.rng
    name, c = where(r)
    args, lib = ['-p', build_path(c), '-d', lang(c)], []
    op = r.choice(('--tokenize', '--split-sentences', None, None))
    if op:
        args.append(op)
    for a, opt in (('accept_titles', 13), ('accept_unfinished_paragraphs', 14), ('accept_bulleted_lists', 16)):
        if r.random() < 0.35:
            v = r.randrange(2)
            args.append('%s=%d' % (a, v))
            lib.append('bo\t0\t%d\t%d' % (opt, v))
    expl = None
    if r.random() < 0.4:
        expl = r.choice(('fi', 'en', 'sv'))
        args.append('explanation_language=' + expl)
        expl = 'fi' if expl == 'fi' else 'en'
    num = r.random() < 0.4
    if num:
        args.append('-n')
    tail = args[4:]
    r.shuffle(tail)
    args[4:] = tail
    data = []
    for _ in range(n):
        k = r.random()
        t = gen.text(r) if k < 0.93 else gen.big_text(r) if k < 0.96 and op else ' '.join(gen.sentence(r) for _ in range(r.randrange(1, 4)))
        if k > 0.985:
            # very many errors in one paragraph
            t = ' '.join(r.choice(('Tämä tämä on  on.', 'koira koira juoksee ,', 'Ei ole  ole joten kuten.', 'Hän Hän  sanoi : ei.', '( foo ) foo foo.')) for _ in range(r.choice((30, 60, 110, 230))))
        data.append(mangle(r, toolrun.encode(t)))
    if r.random() < 0.15:
        data.insert(r.randrange(len(data) + 1), b'a ' * 49999 + r.choice((b'b', b'bc', b'bcd', 'ä ä'.encode())))
    ts = [decode(b, MAXP) for b in data]
    q = {'--tokenize': 'tkU', '--split-sentences': 'stU', None: 'gaU'}[op]
    keep = [i for i, t in enumerate(ts) if t is not None and (op is None or t)]
    res = o.run(['\t'.join(c)] + lib + ['%s\t0\t%s' % (q, U(ts[i])) for i in keep] + ['em\t%d\t%s' % (k, expl or 'en') for k in range(30)], timeout=600)
    if res is None:
        return
    em = [drv.unC(x) for x in res[-30:]]
    res = res[1 + len(lib):-30]
    want = ''
    for i, x in zip(keep, res):
        t = ts[i]
        o.case((name, tuple(tail), t) if t else None)
        if op:
            pos = 0
            for kind, ln in drv.dec_pairs(x):
                if op == '--tokenize' and pos == len(t):
                    break
                if op == '--tokenize':
                    want += '%s: "%s"\n' % (KINDS[kind], t[pos:pos + ln])
                else:
                    want += {0: 'E: ', 2: 'B: ', 3: 'P: '}[kind] + (t[pos:] if kind == 0 else t[pos:pos + ln]) + '\n'
                pos += ln
        else:
            pre = '%d ' % (i + 1) if num else ''
            for e in drv.dec_errors(x):
                want += pre + '[code=%d, level=0, descr="", stpos=%d, len=%d, suggs={%s}]' % (e[0], e[1], e[2], ','.join('"%s"' % s for s in e[3] or []))
                want += (' (%s)' % em[e[0]] if expl else '') + '\n'
            want += pre + '-\n'
    runtool(o, variant, 'voikkogc', args, finish(r, data), want.encode('utf-8', 'surrogatepass'), toolrun.toolong(data, MAXP), b'E: Too long paragraph', {'dictionary': name})
    o.stat('paragraphs: ' + (op or 'grammar'), len(keep))
    o.sample({'tool': 'voikkogc', 'options': tail, 'lines': len(data), 'output head': want[:100]})


def refusals(o, idx):
    ok = ['-p', build.dict_full(), '-d', 'fi-x-full']
    for name, bad in (('voikkohyphenate', (['--nosuch'], ['ignore_dot=2'], ['-s'], ['-sab'], ['no_ugly_hyphenation'], ['koira'])), ('voikkogc', (['--nosuch'], ['accept_titles=2'], ['-nn'], ['koira']))):
        for a in bad:
            p = toolrun.tool('plain', name, ok + a, b'koira\n')
            o.case(('refused', name, a))
            if p.returncode != 1 or not p.stderr or p.stdout:
                o.violation('not-refused', '%s %s ends with status %d, prints %r and reports %r' % (name, a, p.returncode, p.stdout, p.stderr), None)
        p = toolrun.tool('plain', name, ['-p', build.dict_full(), '-d', 'fi-x-nosuch'], b'koira\n')
        o.case(('nodict', name))
        if p.returncode != 1 or b'Initialization of Voikko failed' not in p.stderr or p.stdout:
            o.violation('not-refused', '%s with an unknown dictionary ends with status %d, prints %r and reports %r' % (name, p.returncode, p.stdout, p.stderr), None)


def body(c):
    for v in ('plain', 'asan'):
        build.lib(v)
    build.harness('plain', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(refusals, 1)
    c.shards(hyphenate, c.n(224, 2400), 300, 'plain')
    c.shards(hyphenate, c.n(16, 400), 150, 'asan')
    c.shards(grammar, c.n(400, 4000), 60, 'plain')
    c.shards(grammar, c.n(24, 600), 40, 'asan')
    c.need = 5000


check.main('C22', RULE, body, assumptions=['the locale is UTF-8'])
