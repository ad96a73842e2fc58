"""C10: the spelling verdict follows the morphological analyses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, work, words
from drv import U, C, OPT

RULE = ('seeded words (random walks of the lexicon transducer, test-corpus words, compounds, near misses) each with its orbit: every letter-case pattern (all 2^n for short '
        'words), a hyphen or soft hyphen at every position, doubled syllables, leading and trailing hyphens, a trailing period, digits; the monitor compares every verdict '
        'with a reference lexicon (independent interpreter of the transducer file) plus reference rules for capitals and hyphens, under random capitalisation, period and '
        'hyphen settings. A case is one word form with its options; non-trivial when the lexicon knows the letters of the word; distinct by form and options')
SHY = finnish.SHY


def cases(r, w):
    n = len(w)
    pos = [i for i, c in enumerate(w) if model.upper(c) != c or model.lower(c) != c]
    if len(pos) <= 5:
        for m in range(1 << len(pos)):
            b = list(w)
            for k, i in enumerate(pos):
                b[i] = model.upper(b[i]) if m >> k & 1 else model.lower(b[i])
            yield ''.join(b)
        return
    yield model.lowers(w)
    yield model.uppers(w)
    yield model.upper(w[0]) + w[1:]
    yield model.upper(w[0]) + model.lowers(w[1:])
    yield model.lower(w[0]) + w[1:]
    yield model.lower(w[0]) + model.uppers(w[1:])
    for _ in range(4):
        i = r.choice(pos)
        yield w[:i] + (model.upper(w[i]) if r.random() < 0.7 else model.lower(w[i])) + w[i + 1:]
    yield ''.join(model.upper(c) if r.random() < 0.3 else c for c in w)


def orbit(r, w):
    k = r.random()
    if k < 0.35:
        yield from cases(r, w)
    elif k < 0.55 and len(w) < 40:
        h = r.choice(('-', SHY))
        for i in range(len(w) + 1):
            yield w[:i] + h + w[i:]
    elif k < 0.65:
        for _ in range(6):
            a, b = sorted((r.randrange(len(w) + 1), r.randrange(len(w) + 1)))
            yield w[:a] + r.choice(('-', SHY)) + w[a:b] + r.choice(('-', SHY)) + w[b:]
    elif k < 0.75:
        yield w
        yield w + '.'
        yield model.uppers(w) + '.'
        yield model.upper(w[0]) + w[1:] + '.'
        yield w + '..'
        yield '-' + w
        yield w + '-'
        yield '-' + w + '-'
        yield w + ':n'
        yield w + "'"
    elif k < 0.85:
        for _ in range(5):
            yield gen.edit(r, w)
    else:
        yield w
        x = gen.base_word(r)
        yield w + '-' + x
        yield w + x
        yield w + '-' + model.upper(x[0]) + x[1:]
        yield model.upper(w[0]) + w[1:] + '-' + x
        # vowel-consonant repetition around the hyphen
        yield w + '-' + w[-2:] + x


def run(o, idx, n):
    r = o.rng
    f = words.lex()
    cmds, plan, op = [work.init(0)], [], dict(finnish.DEFAULTS)
    caps = words.capitals(r, 60)
    o.stat('words with inner capitals', len(caps))
    for _ in range(n):
        if r.random() < 0.15:
            k = r.choice((0, 6, 7, 11, 12))
            op[k] = r.choice((finnish.DEFAULTS[k], 1 - finnish.DEFAULTS[k]))
            cmds.append('bo\t0\t%d\t%d' % (k, op[k]))
        w = (words.word(r, 0.6) if r.random() < 0.7 or not caps else r.choice(caps)) or 'ja'
        for x in orbit(r, w):
            x = ''.join(c for c in x if c not in '\0\uffff\ufffe')
            cmds.append('spU\t0\t' + U(x))
            plan.append((len(cmds) - 1, x, dict(op)))
    res = o.run(cmds + ['term\t0'])
    if res is None:
        return
    for k, w, p in plan:
        try:
            want = f.spell(w, p)
            known = bool(f.analyses(w.replace('-', '').replace(SHY, '').rstrip('.')))
        except finnish.Unknown:
            o.stat('no statement by the model')
            continue
        nd = {a: b for a, b in p.items() if b != finnish.DEFAULTS[a]}
        o.case((w, str(sorted(nd.items()))) if known or want else None)
        o.stat('accepted' if want else 'rejected')
        if known:
            o.stat('known letters, case type %s, %s' % (model.casetype(model.normalise(w)) if w else '-', 'accepted' if want else 'rejected'))
        if res[k] != ('1' if want else '0'):
            o.violation('accepted-wrongly' if res[k] == '1' else 'rejected-wrongly', 'word %r options %s: spelling verdict %s, should be %d' % (w[:200], nd, res[k], want),
                        {'commands': check.context(cmds, k), 'word': w, 'options': nd, 'verdict': res[k], 'expected': int(want)})
    o.sample({'word': plan[-1][1][:60], 'accepted': res[plan[-1][0]]})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(192, 4000), 260)
    c.need = 20000


if __name__ == '__main__':
    check.main('C10', RULE, body, assumptions=['words where internal reading limits may be involved are left out; code points 1..0x10FFFF except U+FFFE and U+FFFF'])
