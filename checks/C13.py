"""C13: suggestions are correct words, few, distinct and cased like the input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, suggest, work, words
from drv import U, C, OPT

RULE = ('seeded misspelled words (lexicon words and compounds with one or two edits of every kind, wrong capitals, missing spaces, periods, soft hyphens, equivalent '
        'encodings, OCR errors) under random spelling options and both strategies; monitors: every suggestion is accepted by the spell checker of the same handle, '
        'no duplicates, at most five, and the list equals that of a reference search (every correction of each kind, ranked by the reference priorities). A case is '
        'one word with its options; non-trivial when the reference offers something; distinct by word, options and strategy')


def ocr_edit(r, w):
    t = [x for x in suggest.OCR if x[1] in w]
    if not t:
        return w
    a, b = r.choice(t)
    ps = [i for i, c in enumerate(w) if c == b]
    i = r.choice(ps)
    return w[:i] + a + w[i + 1:]


def misspell(r, ocr):
    k = r.random()
    w = gen.base_word(r)
    if k < 0.08:
        w = w[:r.randrange(1, 7)]
    elif k < 0.18:
        w = w + gen.base_word(r)
    elif k < 0.22:
        w = w + r.choice('.-') + gen.base_word(r)
    elif k < 0.25:
        w = words.syllables(r)
    elif k < 0.3:
        i = r.randrange(len(w))
        w = w[:i] + w[i:i + 2] + w[i:]          # a pair written twice
    elif k < 0.35 and len(w) > 2:
        # both letters of a double letter wrong
        t = [(i, x) for i in range(len(w) - 1) if w[i] == w[i + 1] for x in suggest.R1 + suggest.R2 + suggest.R3 + suggest.R4 if x[1] == w[i]]
        if t:
            i, x = r.choice(t)
            w = w[:i] + x[0] * 2 + w[i + 2:]
    elif k < 0.42 and len(w) > 3:
        i = r.randrange(len(w) - 2)
        j = r.randrange(i + 1, min(len(w), i + 11))
        w = w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:]
    elif k < 0.5:
        b = list(w)
        for i, c in enumerate(b):
            if r.random() < 0.6:
                b[i] = dict(zip(suggest.BACK + suggest.FRONT, suggest.FRONT + suggest.BACK)).get(c, c)
        w = ''.join(b)
    elif k < 0.62:
        # one wrong key
        t = [(i, x) for i in range(len(w)) for x in suggest.R1 + suggest.R2 + suggest.R3 + suggest.R4 + suggest.R5 if x[1] == w[i]]
        if t:
            i, x = r.choice(t)
            w = w[:i] + x[0] + w[i + 1:]
    elif k < 0.7 and len(w) > 3:
        i = r.randrange(1, len(w) - 1)
        w = w[:i] + r.choice((finnish.SHY, finnish.SHY, '-')) + w[i:]
    for _ in range(r.choice((0, 0, 1, 1)) if k < 0.7 else r.choice((0, 1, 1, 1, 2))):
        w = gen.edit(r, w)
    if ocr:
        for _ in range(r.choice((1, 1, 2, 3))):
            w = ocr_edit(r, w)
    if r.random() < 0.3:
        w = gen.recase(r, w)
    if r.random() < 0.1:
        w = gen.denorm(r, w)
    if r.random() < 0.12:
        w += '.'
    return ''.join(c for c in w if c not in '\0\uffff\ufffe')


def run(o, idx, n):
    r = o.rng
    f = words.lex()
    cmds, plan = [work.init(0)], []
    op, ocr = dict(finnish.DEFAULTS), 0
    for _ in range(n):
        if r.random() < 0.08:
            k, v = r.choice((0, 0, 7, 8, 8, 6, 11, 12, 1, 3, 10, 13)), r.randrange(2)
            cmds.append('bo\t0\t%d\t%d' % (k, v))
            if k == 8:
                ocr = v
            elif k == 13:
                pass
            else:
                op[k] = v
            continue
        w = misspell(r, ocr)
        cmds.append('sgU\t0\t' + U(w))
        plan.append((len(cmds) - 1, w, dict(op), ocr))
    res = o.run(cmds)
    if res is None:
        return
    # what the spell checker itself says about each suggestion, under the same options
    c2, ask, cur = [work.init(0)], [], dict(finnish.DEFAULTS)
    for k, w, p, oc in plan:
        got = drv.dec_list(res[k], True)
        for x in p:
            if cur[x] != p[x]:
                c2.append('bo\t0\t%d\t%d' % (x, p[x]))
                cur[x] = p[x]
        for g in got or ():
            parts = g.split(' ')
            for j, part in enumerate(parts):
                alts = [part] + ([part[:-1]] if j + 1 < len(parts) and part[-1:] == '.' else [])   # a sentence may end at the new space
                ask.append((len(c2), len(alts), w, g, p, oc))
                c2 += ['spU\t0\t' + U(a) for a in alts]
    res2 = o.run(c2 + ['term\t0'])
    if res2 is None:
        return
    for k, m, w, g, p, oc in ask:
        o.case()
        if '1' not in res2[k:k + m] and p[6]:
            o.violation('rejected', 'suggestion %r for %r is not accepted (options %s, ocr %d)' % (g, w, diff(p), oc), {'word': w, 'suggestion': g, 'options': diff(p), 'ocr': oc})
    for k, w, p, oc in plan:
        got = drv.dec_list(res[k], True)
        o.stat('suggestions', len(got or ()))
        if got is not None and (len(got) > 5 or not got):
            o.violation('count', '%d suggestions for %r' % (len(got), w), {'word': w, 'suggestions': got})
        if got and len(set(got)) < len(got):
            o.violation('duplicate', 'word %r gets the same suggestion twice: %r (options %s, ocr %d)' % (w, got, diff(p), oc), {'word': w, 'suggestions': got, 'options': diff(p), 'ocr': oc})
        try:
            want, s = suggest.suggest(f, w, p, oc)
        except finnish.Unknown:
            o.stat('no statement by the model')
            continue
        o.case((w, str(diff(p)), oc) if want else None)
        for _, kind in want or ():
            o.stat('offered: ' + kind)
        if s and s.cost >= s.limit:
            o.stat('searches stopped by the effort limit')
        ok = (got is None) == (want is None) and (want is None or len(got) == len(want) and all(g in a for g, (a, _) in zip(got, want)))
        if not ok:
            exp = [a[0] for a, _ in want or ()]
            miss = [kd for (a, kd) in want or () if not set(a) & set(got or ())]
            kind = 'missing-' + miss[0].replace(' ', '-') if miss else 'order' if got and sorted(got) == sorted(exp) else 'extra'
            o.violation(kind, 'word %r (options %s, ocr %d): suggestions %r, should be %r' % (w, diff(p), oc, got, exp),
                        {'commands': check.context(cmds, k), 'word': w, 'options': diff(p), 'ocr': oc, 'suggestions': got, 'expected': exp})
    if plan:
        o.sample({'word': plan[-1][1], 'suggestions': drv.dec_list(res[plan[-1][0]], True)})


def diff(p):
    return {a: b for a, b in sorted(p.items()) if b != finnish.DEFAULTS[a]}


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(96, 2400), 80)
    c.need = 1200


if __name__ == '__main__':
    check.main('C13', RULE, body, assumptions=['the verdict on suggestions is demanded while words may begin with a capital letter (accept_first_uppercase on)',
                                               'words where internal reading limits may be involved are left out'])
