"""C20: the spelling cache never changes an answer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen
from drv import U, OPT

RULE = ('the same sequence of words (dense repetitions of a working set of lexicon words of 1-12 letters in several cases, words chosen to share cache places at every size, '
        'misspellings, long words, words with characters from all of Unicode), option changes and a few suggestion and grammar queries is given to six handles: one without cache, the '
        'others with sizes that stay or change on the way; monitor: all answers equal those of the handle without cache. A case is one word of a sequence; non-trivial when it was '
        'asked before in the sequence or shares a place with another; distinct by word and options')
LANG = {'full': ('fi-x-full', build.dict_full), 'svfst': ('fi-x-svfst', build.dict_svfst), 'ids': ('fi-x-ids', build.dict_more), 'bare': ('fi-x-bare', build.dict_more)}


def twins(r, w):
    """words that a place computed from the low bits of the characters may not tell from w"""
    out = []
    for _ in range(2):
        x = list(w)
        i = r.randrange(len(x))
        c = ord(x[i]) + r.choice((-1, 1)) * (1 << r.choice((3, 4, 5, 6, 7, 8, 9, 10, 11, 16)))
        if 32 < c < 0xd800:
            x[i] = chr(c)
        if len(x) > 1 and r.random() < 0.6:
            # compensate the change of one character in the next one (weights are powers of one number, here of 37)
            i = r.randrange(len(x) - 1)
            d = r.choice((-1, 1, 2))
            a, b = ord(x[i]) + d, ord(x[i + 1]) - 37 * d
            if b > 32 and 32 < a < 0xd800:
                x[i], x[i + 1] = chr(a), chr(b)
        out.append(''.join(x))
    return out


def place(w, order):
    h = 0
    for c in w:
        h = (h * 37 + ord(c)) % (1 << order)
    return h


_groups = {}


def short_words():
    """all words of one to three letters that are accepted in some case"""
    L = gen.LET
    ws = [a for a in L] + [a + b for a in L for b in L] + [a + b + c for a in L for b in L for c in L]
    ws += [w + '.' for w in ws[:len(L) * 20]]
    ws = [w.capitalize() for w in ws]
    res = drv.run(['init\t0\t%s\t%s' % (OPT('fi-x-full'), OPT(build.dict_full())), 'io\t0\t17\t-1'] +
                  ['spM\t0\t' + ' '.join(U(w) for w in ws[k:k + 500]) for k in range(0, len(ws), 500)])
    return [w.lower() for w, v in zip(ws, ''.join(res[2:])) if v == '1']


def groups():
    """words of each length that fall into the same place at several sizes"""
    if not _groups:
        byplace = {}
        for w in short_words() + gen.corpus_words():
            n = len(w)
            if 1 <= n <= 12:
                byplace.setdefault((n, place(w.lower(), {1: 3, 2: 5, 3: 6}.get(n, 7))), []).append(w)
        _groups['g'] = [sorted(set(v)) for k, v in sorted(byplace.items()) if len(v) > 2]
        _groups['n'] = {}
        for g in _groups['g']:
            _groups['n'].setdefault(len(g[0]), []).append(g)
    return _groups


def cases(r, w):
    return r.choice((w, w, w, w.lower(), w.lower(), w.capitalize(), w.upper(), w + '.', w.capitalize() + '.', '-' + w, w + '-'))


def seq(o, idx, n):
    r = o.rng
    which = 'full' if idx % 5 else r.choice(('svfst', 'ids', 'bare'))
    lang, path = LANG[which]
    H = 6
    cmds, meta = [], []

    def add(c, m=None):
        cmds.append(c)
        meta.append(m)
    for h in range(H):
        add('init\t%d\t%s\t%s' % (h, OPT(lang), OPT(path())))
    sizes = [-1, 0, r.choice((0, 1)), r.choice((1, 2)), r.choice((2, 3, 5)), 0]
    for h in range(H):
        if h != 1:
            add('io\t%d\t17\t%d' % (h, sizes[h]))
    base = []
    k = r.randrange(3)
    G = groups()
    for _ in range(60):
        g = r.choice(r.choice(list(G['n'].values())))
        base += r.sample(g, min(len(g), 4))
    if k == 1:
        base = base[:60]
    for _ in range(20):
        base += twins(r, r.choice(base))
    for _ in range(15):
        base.append(gen.word(r, 0.3).replace('\0', ''))
    base += [gen.edit(r, r.choice(base) or 'a') for _ in range(20)] + ['a', 'b', 'ä', 'ja', 'on', '.', '-', 'A', 'a.', '']
    base = [b.replace('\0', '') for b in base]
    opts = dict(gen.BOOL_DEFAULT)
    for _ in range(n):
        work = r.sample(base, min(len(base), r.choice((12, 40, 100))))
        ws = [cases(r, r.choice(work)) if r.random() < 0.95 else gen.word(r, 0.2).replace('\0', '') for _ in range(160)]
        for h in range(H):
            add('spM\t%d\t%s' % (h, ' '.join(U(w) for w in ws)), ('sp', h, ws, tuple(sorted(opts.items()))))
        if r.random() < 0.5:
            opt = r.choice((0, 1, 3, 6, 7, 10, 12, 13, 12, 13))
            v = r.randrange(2)
            opts[opt] = v
            for h in range(H):
                add('bo\t%d\t%d\t%d' % (h, opt, v))
        if r.random() < 0.4:
            h = r.choice((2, 3, 4, 5))
            sizes[h] = r.choice((-1, 0, 1, 2, 3, 4, -1, sizes[h]))
            add('io\t%d\t17\t%d' % (h, sizes[h]))
        if r.random() < 0.2:
            w = cases(r, r.choice(work))
            for h in range(H):
                add('sgU\t%d\t%s' % (h, U(w)), ('q', h, w))
        if r.random() < 0.2:
            t = ' '.join(cases(r, r.choice(work)) for _ in range(8))
            for h in range(H):
                add('%s\t%d\t%s' % (r.choice(('gaU', 'gaU')), h, U(t)), ('q', h, t))
    res = o.run(cmds, timeout=400)
    if res is None:
        return
    ref, sref = None, None
    seen = set()
    sz = [-1, 0, 0, 0, 0, 0]
    for i, (c, m, x) in enumerate(zip(cmds, meta, res)):
        if c.startswith('io\t'):
            _, h, _, v = c.split('\t')
            sz[int(h)] = int(v)
        if m is None:
            continue
        if m[1] == 0:
            ref = x
            if m[0] == 'sp':
                for w in m[2]:
                    key = (w, m[3])
                    o.case(key if key in seen else None)
                    seen.add(key)
                o.stat('words asked repeatedly', sum((w, m[3]) in seen for w in m[2]))
            continue
        if m[0] == 'q':
            o.stat('other queries')
            if x != ref:
                o.violation('other', 'with cache size %d: %s gives %s, without cache %s' % (sz[m[1]], c[:200], x[:300], ref[:300]), {'cmds': cmds[:i + 1][-60:]})
            continue
        o.stat('verdicts compared, cache size %d' % sz[m[1]], len(m[2]))
        if x != ref:
            j = [k for k in range(len(m[2])) if x[k] != ref[k]][0]
            o.violation('verdict', 'with cache size %d the verdict of %r is %s, without cache %s (after %d words of the sequence); dictionary %s' % (sz[m[1]], m[2][j], x[j], ref[j], len(seen), which),
                        {'commands': [y for y in cmds[:i + 1] if y.split('\t')[1] == str(m[1])][-20:], 'word': m[2][j], 'previous': m[2][:j], 'options': m[3], 'size': sz[m[1]]})
    o.sample({'sizes': sizes, 'words': base[:12]})


ALPHA = 'abcdefgh'


def dict_dense():
    """a dictionary that knows every word over ALPHA: as a first name when it begins with a, b, c or d, as a noun otherwise"""
    plain = build.lib('plain')
    rows = ['0\t1\t@0@\t[Lep]', '0\t2\t@0@\t[Ln]']
    rows += ['1\t3\t%s\t%s' % (c, c) for c in 'abcd'] + ['2\t3\t%s\t%s' % (c, c) for c in 'efgh']
    rows += ['3\t3\t%s\t%s' % (c, c) for c in ALPHA] + ['3\t4\t@0@\t[Sn]', '4\t5\t@0@\t[Ny]', '5']

    def make(dest):
        d = dest + '/5/mor-dense'
        build.write_index(d, 'fi-x-dense', 'dense', 'Morphology-Backend: finnishVfst\nGrammar-Backend: null\n')
        build.run([plain + '/voikkovfstc', '-o', d + '/mor.vfst'], input=('\n'.join(rows) + '\n').encode())
    return build.artefact('dict_dense', build.tree_hash([], plain + repr(rows)), make)


def dense(o, idx, n):
    """as many words as the cache has places, one for every place of every length, half of them names"""
    r = o.rng
    cmds, meta = [], []
    sizes = [-1, 0, 0, r.choice((1, 2)), r.choice((-1, 0, 3))]
    for h, z in enumerate(sizes):
        cmds += ['init\t%d\t%s\t%s' % (h, OPT('fi-x-dense'), OPT(dict_dense())), 'io\t%d\t17\t%d' % (h, z)]
    meta = [None] * len(cmds)
    for _ in range(n):
        z = r.choice((0, 0, 1, 2))
        bias = r.choice((0.5, 0.5, 0.2, 0.8))
        ws = []
        for length in range(1, 12):
            order = {1: 3, 2: 5, 3: 6}.get(length, 7) + z
            got = {}
            for _ in range((1 << order) * 3):
                w = r.choice('abcd' if r.random() < bias else 'efgh') + ''.join(r.choice(ALPHA) for _ in range(length - 1))
                got.setdefault(place(w, order), w)
            ws += got.values()
        r.shuffle(ws)
        again = list(ws)
        if r.random() < 0.5:
            r.shuffle(again)
        ws = [w if r.random() < 0.7 else w.capitalize() for w in ws + again]
        for h in range(len(sizes)):
            for k in range(0, len(ws), 1000):
                cmds.append('spM\t%d\t%s' % (h, ' '.join(U(w) for w in ws[k:k + 1000])))
                meta.append((h, k, ws[k:k + 1000]))
    res = o.run(cmds, timeout=400)
    if res is None:
        return
    ref = {}
    for c, m, x in zip(cmds, meta, res):
        if m is None:
            continue
        h, k, ws = m
        if h == 0:
            ref[k] = x
            if '0' not in x or '1' not in x:
                o.stat('one-sided chunks')
            for w in ws:
                o.case(('dense', w))
            continue
        o.stat('verdicts compared, dense dictionary, cache size %d' % sizes[h], len(ws))
        if x != ref[k]:
            j = [i for i in range(len(ws)) if x[i] != ref[k][i]][0]
            o.violation('verdict', 'with cache size %d the verdict of %r is %s, without cache %s (dense dictionary)' % (sizes[h], ws[j], x[j], ref[k][j]),
                        {'words': ws[:j + 1], 'size': sizes[h]})


def body(c):
    build.harness('plain', 'drv')
    for _, p in LANG.values():
        p()
    groups()
    dict_dense()
    c.shards(dense, c.n(64, 2000), 6)
    c.shards(seq, c.n(128, 4000), 40)
    c.need = 20000


check.main('C20', RULE, body)
