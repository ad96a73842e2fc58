"""C25: the work done for any input is bounded by a modest function of its size."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work
from drv import U, C

RULE = ('words and texts built to be costly (repetitions of one to five fragments, chains of compound parts, hyphens, soft hyphens, ligatures, apostrophes, corpus words and '
        'sentences), under random option settings and several dictionaries, improved over generations by keeping and mutating the inputs that executed the most basic blocks; '
        'monitor: a counter in every basic block of the library stops the process as soon as a call exceeds the bound for its operation and input length (a power of the length, '
        'at least five times above the worst cost ever seen), over-long words must be refused within a bound linear in their length (wide-character hyphenation, which hyphenates them by rule: quadratic), ordinary prose may cost a fixed number of blocks per character, and for texts made of a repeated part a '
        'fourfold length may cost at most a little over sixteen times as much. A case is one call; non-trivial when the call was answered; distinct by operation, options and input')

UNITS = ['a', '-', 'a-', 'aa-', '.', 'a.', '1', '1-', 'A', 'A-', 'kissa', 'talo', 'auto-', 'koira-', 'maa', 'ala', 'suo', 'yö', 'i', 'ja', 'ei', '\u00ad', 'a\u00ad', 'k\u00ad-', "'",
         "a'", ':', 'a:', '\ufb01', 'a\u0308', 'ä', 'on', 'en', 'e', 'sta', 'ton', 'nen', 'kin', 'han', '-kissa', 'kissa-', 'Kissa-', 'KISSA', 'ös', 'eri', 'etu', 'epä', 'l', 'o',
         'uu', 'ii-', 'alus', 'puu', 'työ', 'tie', 'pää', 'luu', 'www.', '@', '/', '0', 'x', 'ss', 'linja-auto', 'suur', 'isä', 'äiti', 'geo-', 'q', 'xx', '\ufb03', '\u2019', 'ꞏ', '=']
TUNITS = UNITS + [' ', '. ', ', ', '? ', 'Kissa ', 'kissa juoksee. ', '"', ') ', '(', '\n', '\t', 'Hän ', 'ei ole ', 'on on ', 'joten kuten ', 'ja ', 'että ', '. . ', '... ', '- ',
                  '1. ', 'http://', 'a@b.fi ', '!', '(koira ', '  ', 'Ä', 'Kissa. ', 'kissa.Koira', '…', '”', '(', '[', 'alkaa ', 'juosta ', 'vrt. ', 'esim. ', '\u00a0', '\u2013 ']
BAD = ['a', 'ae', 'alus', 'suur', 'geo-', '-kissa', 'a-', 'Kissa-talo', 'suo', 'ala', 'A-', 'koira-suo', 'x', 'ii-', '-', '\ufb01', 'q-', 'ge-o-', 'geo-geo']
TBAD = ['- ', '. ', '1. ', '! ', "a'", '. . ', 'alus ', '"', '(']
WLENS = (4, 8, 16, 24, 32, 48, 64, 96, 128, 192, 254, 255)
TLENS = (50, 200, 800, 3000, 12000)
LIMIT = 255


def one(n):
    """one look-up of a word: quadratic, and never above the transducers' own limit"""
    return min(2500000, 3000 * n * n) + 30000


def bound(op, w, opts):
    n = len(w.encode('utf-8', 'surrogatepass')) if op[-1] == 'C' else len(w)
    base = op[:2]
    h = w.count('-')
    conv = 2000 * n + 20000
    if op == 'hyU' and n > LIMIT:                                        # not looked up, but hyphenated by rule
        return 3 * n * n + conv
    if base in ('sp', 'hy', 'an', 'sg') and n > LIMIT:
        return conv
    if base == 'sp':                                                    # the word and its parts before each hyphen, and with optional hyphens left out
        return (1 + h + (h * h // 2 if opts.get(11) else 0)) * 16 * one(n) + conv
    if base in ('hy', 'an'):
        return 60 * one(n) + conv
    if base == 'sg':                                                    # a limited number of candidates
        return 5000 * one(n)
    if op[:3] in ('tk1',):                                              # one token
        return 400 * n + 100000
    if base == 'tk':                                                    # all tokens of the text
        return 300 * n * n + 500 * n + 100000
    looked = 0                                                          # words looked up on the way, spelled or analysed
    for x in re.split(r'\s+', w):
        h = x.count('-')
        looked += (6 + h + (h * h // 2 if opts.get(11) else 0)) * 10 * one(min(len(x), LIMIT))
    return 300 * n * n + looked + conv + 100000


def make(r, n, units):
    k = r.random()
    s = []
    ln = 0
    if k < 0.15:                # the costliest families known
        u = r.choice(BAD if units is UNITS else BAD + TBAD)
        return (r.choice(('', '', r.choice(units))) + u * (n // len(u) + 1))[:n]
    if k < 0.65:
        us = [r.choice(units) for _ in range(r.choice((1, 1, 2, 2, 3, 5)))]
        while ln < n:
            s.append(r.choice(us))
            ln += len(s[-1])
    elif units is TUNITS:
        while ln < n:
            s.append(work.nz(gen.sentence(r)) + r.choice(('', ' ', '. ', '\n', ' ')))
            ln += len(s[-1])
    elif k < 0.95:
        pool = gen.corpus_words()
        while ln < n:
            s.append(r.choice(pool) + r.choice(('', '', '-', '\u00ad')))
            ln += len(s[-1])
    else:
        while ln < n:
            s.append(work.nz(gen.hostile_word(r)) or 'a')
            ln += len(s[-1])
    return ''.join(s)[:n]


def mutate(r, w, n, units):
    for _ in range(r.choice((1, 1, 2, 4))):
        i = r.randrange(len(w) + 1)
        k = r.randrange(4)
        u = r.choice(units)
        if k == 0:
            w = w[:i] + u + w[i:]
        elif k == 1:
            w = w[:i] + w[i + 1:]
        elif k == 2:
            j = r.randrange(len(w) + 1)
            a, b = min(i, j), max(i, j)
            w = w[:b] + w[a:b] + w[b:]
        else:
            w = w[:i] + u + w[i + len(u):]
    return w[:n]


def measure(o, which, calls):
    """calls: (op, input, options); the steps of each, or None after a violation"""
    cmds = [work.init(0, which), 'io\t0\t17\t-1']
    at = []
    for op, w, opts in calls:
        for k, v in sorted(gen.BOOL_DEFAULT.items()):
            cmds.append('bo\t0\t%d\t%d' % (k, opts.get(k, v)))
        if 9 in opts:
            cmds.append('io\t0\t9\t%d' % opts[9])
        cmds.append('lim\t%d' % bound(op, w, opts))
        cmds.append('%s\t0\t%s%s' % (op, C(w) if op[-1] == 'C' else U(w), '\t0\t0' if op[:2] == 'gr' else ''))
        at.append(len(cmds) - 1)
        cmds.append('lim\t0')
    try:
        res = drv.run(cmds + ['term\t0'], 'steps', timeout=400)
    except drv.Crash as x:
        if x.rc != 97 or x.index not in at:
            o.violation('crash:' + drv.san_key(x.report), 'the library died (rc %s) in: %s\n%s' % (x.rc, x.cmd[:400], check.tail(x.report)), {'commands': check.context(cmds, x.index)})
            return None
        op, w, opts = calls[at.index(x.index)]
        o.violation('bound-%s%s' % (op[:2], '-overlong' if len(w) > LIMIT and op[:2] in ('sp', 'hy', 'an', 'sg') else ''),
                    '%s of %d characters (dictionary %s, options %r) executed more than %s basic blocks: %r' % (op, len(w), which, opts, cmds[x.index - 1].split('\t')[1], w[:120]),
                    {'operation': op, 'input': w[:2000], 'length': len(w), 'options': opts, 'dictionary': which, 'commands': check.context(cmds, x.index)})
        return None
    except drv.Hang as x:
        o.violation('hang:' + x.cmd.split('\t')[0], 'no answer within the watchdog time (twice) in: ' + x.cmd[:300], {'commands': check.context(cmds, x.index)})
        return None
    out = []
    for i, (op, w, opts) in zip(at, calls):
        st = int(res[i].rsplit('\t', 1)[1])
        out.append(st)
        o.case((op, which, tuple(sorted(opts.items())), w))
        o.stat('calls of ' + op[:2])
        if len(w) in WLENS or len(w) in TLENS:
            o.peak('most blocks, %s of %5d' % (op[:3] if op[2] == '1' else op[:2], len(w)), st)
        q = round(1000 * st / bound(op, w, opts), 1)
        if q > o.peaks.get('cost per mille of bound, ' + op, 0) and os.environ.get('C25_DEBUG'):
            sys.stderr.write('%s %.1f %d %s %r %d %r\n' % (op, q, st, which, opts, len(w), w[:80]))
        o.peak('cost per mille of bound, ' + op, q)
        o.stat('basic blocks executed (millions)', st // 1000000)
    return out


def options(r):
    opts = {}
    if r.random() < 0.6:
        for k in gen.BOOL_OPTS:
            if r.random() < 0.3:
                opts[k] = r.randrange(2)
    if r.random() < 0.2:
        opts[9] = r.choice((1, 2, 3, 8))
    return opts


def climb(o, idx, jobs, gens):
    """one hill climb: operation, length and dictionary from the job list"""
    r = o.rng
    op, n, which = jobs[idx % len(jobs)]
    text = op[:2] not in ('sp', 'hy', 'an', 'sg')
    units = TUNITS if text else UNITS
    m = (4 if n >= 3000 else 12) if text else (40 if op[:2] != 'sg' else 14 if n < 30 else 4)
    pop = []
    for g in range(gens if not (op[:2] == 'sg' and n >= 30 or n >= 3000) else max(2, gens // 2)):
        cand = []
        for _ in range(m):
            if pop and r.random() < 0.65:
                w, opts = r.choice(pop)[1]
                w = mutate(r, w, n, units)
            else:
                w, opts = make(r, n, units), options(r)
            if op[:2] in ('sp', 'gr', 'ga', 'st') and w.count('-') > 26 and opts.get(11):
                opts = dict(opts)
                del opts[11]            # legitimately slow (a square of the number of hyphens); seen with fewer hyphens
            cand.append((w, opts))
        st = measure(o, which, [(op, w, opts) for w, opts in cand])
        if st is None:
            return
        pop = sorted(pop + list(zip(st, cand)), key=lambda z: -z[0])[:10]
    o.sample({'operation': op, 'length': n, 'dictionary': which, 'worst cost found': pop[0][0], 'bound': bound(op, *pop[0][1]), 'input': pop[0][1][0][:60]})


def scaling(o, idx):
    """repeated parts at n, 2n, 4n"""
    r = o.rng
    which = r.choice(('full', 'full', 'ids', 'svfst'))
    for _ in range(4):
        us = [r.choice(TUNITS) for _ in range(r.choice((1, 2, 3, 6)))]
        part = ''.join(us)
        opts = options(r)
        op = r.choice(('tkU', 'tkC', 'stU', 'stC', 'grU', 'gaU', 'tk1U', 'tk1C'))
        n = r.choice((400, 700, 1200))
        st = measure(o, which, [(op, (part * (k * n // len(part) + 1))[:k * n], opts) for k in (1, 2, 4)])
        if st is None:
            return
        a, b, c = st
        o.stat('scaling series')
        if c > 20 * a + 2000000 or b > 5 * a + 500000:
            o.violation('scaling-' + op[:2], '%s of repeated %r: cost %d, %d, %d at lengths %d, %d, %d' % (op, part, a, b, c, n, 2 * n, 4 * n),
                        {'operation': op, 'part': part, 'length': n, 'cost': st, 'options': opts, 'dictionary': which})


PROSE = {'tkU': 100, 'tkC': 1500, 'stU': 1000, 'grU': 20000, 'gaU': 20000, 'grC': 20000}      # per character


def prose(o, idx):
    """ordinary text: the work is proportional to its length"""
    r = o.rng
    pool = [w for w in gen.corpus_words() if len(w) < 25]
    s = ''
    n = r.choice((2000, 8000, 30000, 60000))
    while len(s) < n:
        ws = [r.choice(pool) for _ in range(r.randrange(3, 16))]
        s += r.choice((' ', ' ', ' ', ', ')).join(ws).capitalize() + r.choice(('.', '!', '?', '...', ':')) + r.choice((' ', ' ', '\n'))
    cmds = [work.init(0)]
    ops = r.sample(sorted(PROSE), 3)
    for op in ops:
        cmds += ['lim\t%d' % (PROSE[op] * n + 200000), '%s\t0\t%s%s' % (op, C(s[:n]) if op[-1] == 'C' else U(s[:n]), '\t0\t0' if op[:2] == 'gr' else ''), 'lim\t0']
    try:
        res = drv.run(cmds, 'steps', timeout=400)
    except drv.Crash as x:
        if x.rc != 97:
            raise
        op = x.cmd.split('\t')[0]
        o.violation('prose-' + op[:2], '%s of an ordinary text of %d characters executed more than %d basic blocks per character' % (op, n, PROSE[op]), {'operation': op, 'text': s[:1000], 'length': n})
        return
    for j, op in enumerate(ops):
        o.case(('prose', op, s))
        o.peak('blocks per character of prose, ' + op, int(res[3 * j + 2].rsplit('\t', 1)[1]) // n)


def overlong(o, idx):
    """words beyond the limit, and words at it"""
    r = o.rng
    which = r.choice(('full', 'full', 'ids', 'svfst', 'err'))
    calls = []
    for _ in range(40):
        n = r.choice((256, 256, 257, 300, 512, 1000, 5000, 40000))
        op = r.choice(('sp', 'hy', 'an', 'sg')) + r.choice('UC')
        calls.append((op, make(r, n, UNITS), options(r)))
    if measure(o, which, calls) is not None:
        o.stat('over-long words', len(calls))


def body(c):
    build.harness('steps', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    jobs = []
    for rnd in range(c.n(2, 12)):
        for i, n in enumerate(WLENS):
            for j, op in enumerate(('sp', 'hy', 'an')):
                jobs.append((op + 'UC'[(i + j + rnd) % 4 == 3], n, 'full'))
            jobs.append(('sgU', n, 'full' if (i + rnd) % 4 else 'err'))
            jobs.append(('spU', n, ('ids', 'ids', 'svfst')[(i + rnd) % 3]))
            jobs.append((('sgU', 'hyU', 'anU', 'sgU')[(i + rnd) % 4], n, ('svfst', 'ids', 'bare')[(i + rnd) % 3]))
        for i, n in enumerate(WLENS[2:]):
            jobs.append((('sp', 'an', 'hy', 'sp', 'an')[(i + rnd) % 5] + 'U', n, 'amb'))
        for i, n in enumerate(TLENS):
            for j, op in enumerate(('tkU', 'tkC', 'stU', 'stC', 'grU', 'gaU', 'grC', 'tk1U', 'tk1C', 'st1U')):
                if n > 3000 and op in ('gaU', 'stC', 'tkC', 'grC') and not c.thorough:
                    continue
                jobs.append((op, n, ('full', 'full', 'ids')[(i + j + rnd) % 3]))
    jobs.sort(key=lambda j: -j[1] * (50 if j[0][:2] == 'sg' else 10 if j[0][:2] == 'sp' else 1))
    c.shards(climb, len(jobs), jobs, c.n(6, 12))
    c.shards(scaling, c.n(24, 400))
    c.shards(prose, c.n(24, 300))
    c.shards(overlong, c.n(16, 200))
    c.need = 3000


if __name__ == '__main__':
    check.main('C25', RULE, body, assumptions=['work inside the C library is not counted, only the basic blocks of the library itself', 'the dictionaries built from /repo and the synthetic ones of this directory'])
