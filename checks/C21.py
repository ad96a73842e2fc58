"""C21: the command-line spell checker loses, reorders or changes no verdict."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, toolrun
from toolrun import decode, first_diff
from drv import U, OPT

RULE = ('voikkospell is run on seeded word lists (lexicon words, misspellings, hostile, over-long and malformed lines; counts around the block size and its multiples) with seeded options and '
        'thread counts from 1 to 200, with delays injected at the start and end of each worker; monitor: standard output byte for byte what the library says word by word through its own interface '
        'with the same options, exit status, and the same output for every thread count. A ThreadSanitizer build of the tool watches for races, an AddressSanitizer build for memory errors. '
        'The begin/end order of the workers is logged. A case is one run; non-trivial when at least two workers were used; distinct by input, options and thread count')
BOPT = {'ignore_dot': 0, 'ignore_numbers': 1, 'accept_first_uppercase': 6, 'accept_all_uppercase': 7, 'ocr_suggestions': 8, 'ignore_nonwords': 10, 'accept_extra_hyphens': 11, 'accept_missing_hyphens': 12}


def shim():
    src = build.HARNESS + '/delay.c'

    def make(dest):
        build.run(['gcc', '-O1', '-shared', '-fPIC', src, '-o', dest + '/delay.so', '-ldl', '-lpthread'])
    return build.artefact('delay', build.tree_hash([src]), make) + '/delay.so'


def lines(r, n, slow):
    """n input lines as bytes"""
    out = []
    pool = gen.corpus_words()
    for _ in range(n):
        k = r.random()
        if k < 0.8:
            w = r.choice(pool)
            if r.random() < 0.1:
                w = gen.recase(r, w)
            if r.random() < 0.08:
                w = gen.edit(r, w)
            if r.random() < 0.12:
                # words whose verdict depends on an option
                w = r.choice((w + '.', w + '1', w.upper(), w.capitalize(), w[:3] + '-' + w[3:], w + '-', '-' + w, w.upper() + '.', 'www.' + w + '.fi'))
        elif k < 0.95 or slow:
            w = gen.word(r, 0.3)
        else:
            w = 'a' * r.choice((100, 254, 255, 256, 300)) if r.random() < 0.5 else gen.hostile_word(r)
        b = toolrun.encode(w).replace(b'\r', b'')
        if r.random() < 0.02:
            b = toolrun.spoil(r, b)
        elif r.random() < 0.005:
            b = b + b'\0' + b'xyz'
        elif r.random() < 0.01:
            b = b''
        elif r.random() < 0.01:
            b += r.choice((b' ', b'\r', b'\t'))
        out.append(b)
    return out


def options(r, wide=False):
    """command-line options, library options, output mode"""
    args, lib = [], []
    mode = r.choice(('normal', 'normal', '-t', '-tt', '-M', 'normal'))
    if wide:
        mode = r.choice(('normal', '-t', '-tt'))
    sug, mor, one, sep = r.random() < 0.2, r.random() < 0.2, r.random() < 0.12, ' '
    if wide:
        sug = mor = one = False
    if mode != 'normal':
        args.append(mode)
    if sug:
        args.append('-s')
    if mor:
        args.append('-m')
    if one:
        sep = r.choice((' ', ' ', ';', '/', '\t'))
        args.append('-x' + (sep if sep != ' ' or r.random() < 0.5 else ''))
    for n, o in BOPT.items():
        if r.random() < (0.4 if wide else 0.15):
            v = r.randrange(2)
            args.append('%s=%d' % (n, v))
            lib.append((o, v))
    if r.random() < 0.4:
        args.append('-c%d' % r.choice((-1, 0, 1, 3, 5)))
    r.shuffle(args)
    # the last of several assignments counts; each option is given once here
    return args, lib, dict(mode='-M' if mode == '-M' else mode, sug=sug, mor=mor or mode == '-M', one=one, sep=sep)


def reference(o, ws, lib, m, which):
    """what the tool has to print for the words"""
    lang, path = which
    head = ['init\t0\t%s\t%s' % (OPT(lang), OPT(path))] + ['bo\t0\t%d\t%d' % x for x in lib]
    uniq = sorted(set(ws))
    cmds = head + ['spM\t0\t' + ' '.join(U(w) for w in uniq[k:k + 400]) for k in range(0, len(uniq), 400)]
    res = o.run(cmds)
    if res is None:
        return None
    verdict = dict(zip(uniq, ''.join(res[len(head):])))
    if m['mode'] == '-M':
        verdict = {w: '1' for w in uniq}
    need_s = [w for w in uniq if verdict[w] == '0' and (m['one'] or m['sug'])]
    need_a = [w for w in uniq if verdict[w] == '1' and m['mor']]
    res = o.run(head + ['sgU\t0\t' + U(w) for w in need_s] + ['anU\t0\t' + U(w) for w in need_a], timeout=600)
    if res is None:
        return None
    res = res[len(head):]
    sug = {w: drv.dec_list(x, True) for w, x in zip(need_s, res)}
    ana = {w: drv.dec_analyses(x, True) for w, x in zip(need_a, res[len(need_s):])}
    out = []
    for w in ws:
        v = verdict[w] == '1'
        if m['one']:
            out.append(w + ''.join(m['sep'] + s for s in (sug.get(w) or []) if m['sep'] != ' ' or ' ' not in s))
        elif m['mode'] == 'normal':
            out.append(('C: ' if v else 'W: ') + w)
        elif m['mode'] == '-t':
            out.append('C' if v else 'W')
        elif m['mode'] == '-tt' and not v:
            out.append(w)
        if m['mor'] and v:
            for i, a in enumerate(ana[w]):
                out += ['A(%s):%d:%s=%s' % (w, i + 1, k, x) for k, x in a.items()]
        if m['sug'] and not m['one'] and not v:
            out += ['S: ' + s for s in sug[w] or []]
    return ''.join(x + '\n' for x in out).encode('utf-8', 'surrogatepass')


DICTS = {'full': ('fi-x-full', build.dict_full), 'svfst': ('fi-x-svfst', build.dict_svfst)}


def tool(variant, args, data, env):
    return toolrun.tool(variant, 'voikkospell', args, data, env)


def run(o, idx, variant, sizes, tries):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c21')
    try:
        wide = min(sizes) > 8000
        args, lib, m = options(r, wide)
        heavy = m['sug'] or m['one']
        which = DICTS['svfst' if idx % 8 == 7 else 'full']
        which = (which[0], which[1]())
        n = r.choice(sizes)
        if heavy and variant == 'plain' and n > 1100:
            n = r.choice((1001, 1101))
        data = lines(r, n, heavy)
        ws = [w for w in map(decode, data) if w is not None]
        toolong = toolrun.toolong(data)
        want = reference(o, ws, lib, m, which)
        if want is None:
            return
        inp = b'\n'.join(data) + (b'\n' if r.random() < 0.8 and data else b'')
        base = ['-p', which[1], '-d', which[0]] + args
        for k in range(tries):
            j = r.choice((1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 16) + ((64, 200) if variant == 'plain' and r.random() < 0.1 else ()))
            if wide:
                j = r.choice((17, 18, 20, 24, 31, 32, 33, 40, 64, 129, 200))
            a = list(base)
            if j != 1 or r.random() < 0.5:
                at = r.randrange(0, len(a) // 2 + 1) * 2 if r.random() < 0.1 else len(a)
                at = min(at, 4)
                a[at:at] = ['-j', str(j)]
            env = {}
            log = tmp + '/log%d' % k
            if variant == 'plain':
                env = {'LD_PRELOAD': shim(), 'DELAY_LOG': log, 'DELAY_SEED': str(r.randrange(10 ** 6)), 'DELAY_US': str(r.choice((0, 300, 3000, 20000)))}
            elif variant == 'tsan':
                env = {'TSAN_OPTIONS': 'exitcode=66:report_signal_unsafe=0'}
            else:
                env = drv.ASAN_ENV
            p = tool(variant, a, inp, env)
            nthreads = min(j, (len(ws) + 499) // 500)
            o.case((args, j, inp) if nthreads > 1 else None)
            o.stat('%s runs' % variant)
            o.stat('words', len(ws))
            w = {'args': a, 'words': len(ws), 'stderr': p.stderr[-1500:].decode('utf-8', 'replace'), 'input_head': repr(inp[:300]), 'env': env}
            if os.path.exists(log):
                ev = open(log).read()
                o.stat('workers', ev.count('b'))
                if len(ev) > 8:
                    o.distinct_orders = getattr(o, 'distinct_orders', set())
                    seq = ev.split()
                    inv = sum(1 for x, y in zip([s for s in seq if s[0] == 'e'], [s for s in seq if s[0] == 'e'][1:]) if int(y[1:]) < int(x[1:]))
                    o.stat('runs whose workers ended out of order', 1 if inv else 0)
                    o.case(('order', ev), 0)
            if p.returncode == 66 or b'WARNING: ThreadSanitizer' in p.stderr:
                o.violation('race', 'a race in voikkospell %s: %s' % (' '.join(a[4:]), p.stderr[:900].decode('utf-8', 'replace')), w)
            elif p.returncode:
                o.violation('status', 'voikkospell %s on %d words ends with status %d: %s' % (' '.join(a[4:]), len(ws), p.returncode, p.stderr[-700:].decode('utf-8', 'replace')), w)
            if p.stdout != want and not (p.returncode and not p.stdout):
                o.violation('output', 'voikkospell %s on %d words prints something else than the library says: %s' % (' '.join(a[4:]), len(ws), first_diff(p.stdout, want)), w)
            if p.stderr.count(b'E: Too long word') != toolong and not p.returncode:
                o.violation('toolong', 'voikkospell reports %d over-long words, there are %d' % (p.stderr.count(b'E: Too long word'), toolong), w)
        o.sample({'args': args, 'words': len(ws), 'output head': want[:120].decode('utf-8', 'replace')})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def listing(o, idx):
    """lists of dictionaries and capabilities, refusals"""
    r = o.rng
    path = r.choice((build.dict_full(), build.dict_more(), build.dict_svfst()))
    res = o.run(['%s\t%s' % (op, OPT(path)) for op in ('ld', 'ls', 'lh', 'lg')])
    if res is None:
        return
    want = ''
    for x in res[0].split(' ')[1:]:
        f = [drv.unC(y) for y in x.split(',')]
        want += '%s%s-x-%s: %s\n' % (f[0], '-' + f[1] if f[1] else '', f[2], f[3])
    p = tool('plain', ['-p', path, '-l'], b'', {})
    o.case(('list', path))
    if p.returncode or p.stdout.decode() != want:
        o.violation('list', 'voikkospell -l prints %r, expected %r' % (p.stdout, want), None)
    want = ''.join('%s:%s\n' % (n, l) for n, x in zip(('spell', 'hyphen', 'grammar'), res[1:]) for l in drv.dec_list(x, False))
    p = tool('plain', ['-L', '-p', path], b'', {})
    o.case(('caps', path))
    if p.returncode or p.stdout.decode() != want:
        o.violation('list', 'voikkospell -L prints %r, expected %r' % (p.stdout, want), None)
    for a in (['-d', 'fi-x-nosuch'], ['-j', '0'], ['-j', '201'], ['-j', '-3'], ['--nosuch'], ['ignore_dot=2'], ['-j']):
        p = tool('plain', ['-p', path] + ([] if a[0] == '-d' else ['-d', drv.unC(res[0].split(' ')[1].split(',')[0]) + '-x-' + drv.unC(res[0].split(' ')[1].split(',')[2])]) + a, b'koira\n', {})
        o.case(('refused', a))
        if p.returncode != 1 or not p.stderr or p.stdout:
            o.violation('not-refused', 'voikkospell %s ends with status %d, prints %r and reports %r' % (a, p.returncode, p.stdout, p.stderr), None)


SIZES = (0, 1, 2, 37, 499, 500, 501, 777, 999, 1000, 1001, 1499, 1500, 1501, 2000, 2003, 2500, 2501, 3001, 4000, 4499, 6001)


def body(c):
    for v in ('plain', 'asan', 'tsan'):
        build.lib(v)
    build.harness('plain', 'drv')
    shim()
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(run, c.n(120, 4000), 'plain', SIZES, 4)
    c.shards(run, c.n(16, 400), 'plain', (9001, 12000, 16400, 18001), 2)
    c.shards(run, c.n(16, 300), 'tsan', (501, 1000, 1500, 2001), 2)
    c.shards(run, c.n(16, 300), 'asan', (1, 501, 1500, 2001), 2)
    c.shards(listing, 6)
    c.need = 200


check.main('C21', RULE, body, assumptions=['the locale is UTF-8'])
