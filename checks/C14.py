"""C14: morphological analyses describe the word that was asked."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, morph, work, words
from drv import U, C, OPT

RULE = ('seeded words (random walks of the transducer, corpus words, compounds, numerals, capitals, hostile strings), analysed through the wide and the UTF-8 interface; '
        'monitors: the multiset of analyses equals that of a reference (independent interpreter of the dictionary file and reference reading of its output tags), the two '
        'text forms agree, every key occurs once, the structure has one mark per character of the word and spells it, and every value of an enumerated attribute is among '
        'the values the library declares. A case is one word; non-trivial when it has an analysis; distinct by word')
NUM = ['yksi', 'kaksi', 'kolme', 'neljä', 'viisi', 'kymmenen', 'toista', 'sata', 'sataa', 'tuhat', 'tuhatta', 'miljoona', 'kahden', 'kolmannen', 'viidennes', 'seitsemän',
       'kahdeksan', 'yhdeksän', 'kymmentä', 'ensimmäinen', 'toinen', 'kolmas', 'kolmanteen', 'viiden', 'puoli', 'puolitoista', 'kuudes', 'sadas', 'yhtä', 'kahta']
# tags of the parts of compounds that the base form treats specially
FST = re.compile(r'\[X[a-z]\].*?\[X\]|\[[^\]]*\]')
FRONT = ('[De]', '[De]', '[De]', '[Ica]', '[Bm]', '[Bc]', '[Ll]', '[Lp]', '[Lnl]', '[Lu]', '[Sg]')
BACK = ('[Lep]', '[Lep]', '[Ica]', '[Ln]', '[Les]', '[Lem]')


def word(r):
    k = r.random()
    if k < 0.12:
        return ''.join(r.choice(NUM) for _ in range(r.choice((1, 2, 2, 3, 4, 5))))
    if k < 0.2:
        return ''.join(r.choice('0123456789') for _ in range(r.choice((1, 2, 3, 5)))) + r.choice(('', ':n', ':ssa', '-', '-vuotias', '.', ',5', '–2', ':nnen', ':ksi', '-' + gen.base_word(r)))
    if k < 0.26:
        return gen.base_word(r) + r.choice(words.SUFF)
    if k < 0.3:
        return model.lower(r.choice(('epä', 'ali', 'yli', 'etelä', 'pohjois-', 'ei-', 'Etelä-', 'uudel', 'ex-', 'suur'))) + gen.base_word(r)
    if k < 0.36:
        return words.by_tag(r, r.choice(FRONT)) + r.choice(('-', '-', '-', '')) + words.by_tag(r, r.choice(BACK))
    if k < 0.4:
        return words.tag_compound(r)
    if k < 0.55:
        return words.by_tag(r)
    return words.word(r, 0.65)


def key(a):
    return tuple(sorted(a.items()))


def run(o, idx, n):
    r = o.rng
    lex = words.lex().lex
    ws = []
    caps = words.capitals(r, 30)
    for _ in range(n):
        w = word(r) if r.random() < 0.93 or not caps else r.choice(caps)
        ws.append(''.join(c for c in w if c not in '\0\uffff\ufffe'))
    cmds = [work.init(0)]
    attrs = sorted(morph.VALUES) + sorted(morph.SINGLE_VALUES) + ['NOSUCH', 'BASEFORM', 'STRUCTURE', 'FSTOUTPUT', 'class', '']
    a0 = len(cmds)
    cmds += ['av\t0\t' + a for a in attrs]
    w0 = len(cmds)
    for w in ws:
        cmds.append('anU\t0\t' + U(w))
    c0 = len(cmds)
    for w in ws:
        cmds.append('anC\t0\t' + C(w))
    res = o.run(cmds + ['term\t0'])
    if res is None:
        return
    declared = {}
    for j, a in enumerate(attrs):
        declared[a] = drv.dec_list(res[a0 + j], False)
    if idx == 0:
        for a in attrs:
            want = morph.VALUES.get(a, morph.SINGLE_VALUES.get(a))
            want = list(want.values()) if isinstance(want, dict) else want
            if a == 'COMPARISON':
                want = want + ['positive']
            got = declared[a]
            o.case(('declared', a))
            if (got is None) != (want is None) or (want is not None and sorted(set(got)) != sorted(set(want))):
                o.violation('declared-' + a, 'declared values of %s are %r, should be %r' % (a, got, want), {'attribute': a, 'got': got, 'expected': want})
    for j, w in enumerate(ws):
        got = drv.dec_analyses(res[w0 + j], True)
        gotc = drv.dec_analyses(res[c0 + j], False)
        o.case(w if got else None)
        ctx = {'word': w, 'codepoints': [hex(ord(c)) for c in w[:60]], 'analyses': got}
        if 0 < len(w.encode()) <= 255 and gotc != got:
            o.violation('forms', 'word %r: the UTF-8 form gives other analyses than the wide form: %r / %r' % (w[:100], gotc, got), ctx)
        for a in got or ():
            o.stat('analyses')
            if '!dup' in a:
                o.violation('dup', 'word %r: attribute %s occurs twice' % (w, a['!dup']), ctx)
                continue
            if None in a.values():
                o.violation('novalue', 'word %r: attribute without value: %r' % (w, a), ctx)
                continue
            st = a.get('STRUCTURE')
            if st is None or 'CLASS' not in a:
                o.violation('mandatory', 'word %r: analysis without structure or class: %r' % (w, a), ctx)
                continue
            if len(FST.sub('', a.get('FSTOUTPUT', ''))) != len(w):
                # the dictionary writes the word with another number of letters ("neljäks" as "neljäksi"): only the model speaks
                o.stat('dictionary writes the word otherwise')
                st = None
            marks = (st or '').replace('=', '')
            bad = st is not None and (len(marks) != len(w) or '=' not in st)
            if st is not None and not bad:
                for m, c in zip(marks, model.lowers(w)):
                    if m in 'ijpq':
                        bad = bad or not (model.is_lower(c) or c not in '-:')
                    else:
                        bad = bad or m != c
            if bad:
                o.violation('structure', 'word %r: structure %r does not fit' % (w, st), ctx)
            for k, v in a.items():
                d = declared.get(k)
                if d is not None and v not in d:
                    o.violation('undeclared-' + k, 'word %r: value %r of %s is not among the declared ones' % (w, v, k), ctx)
                o.stat('attribute values')
            if 'BASEFORM' in a:
                o.stat('with base form')
        want = lex.analyse(w, True)
        if want is None:
            o.stat('no statement by the model')
            continue
        if sorted(map(key, got or ())) != sorted(map(key, want)):
            g, h = sorted(map(key, got or ())), sorted(map(key, want))
            if len(g) != len(h):
                kind = 'count'
                msg = '%d analyses, should be %d' % (len(g), len(h))
            else:
                p = [(dict(x), dict(y)) for x, y in zip(g, h) if x != y][0]
                ks = sorted(k for k in set(p[0]) | set(p[1]) if p[0].get(k) != p[1].get(k))
                kind = 'attribute-' + ks[0]
                msg = '; '.join('%s is %r, should be %r' % (k, p[0].get(k), p[1].get(k)) for k in ks)
            o.violation(kind, 'word %r: %s' % (w[:150], msg), dict(ctx, expected=want))
    o.sample({'word': ws[-1][:60], 'analyses': len(drv.dec_analyses(res[w0 + n - 1], True) or ())})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(256, 4000), 900)
    c.need = 10000


if __name__ == '__main__':
    check.main('C14', RULE, body, assumptions=['words where the limits on the number or size of readings may be involved are only checked for internal consistency'])
