"""C07: sentences partition the text at sentence ends."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, work
from drv import U, C, OPT

RULE = ('seeded paragraphs (real, mutated, generated around abbreviations, initials, ordinals, dates, quotations, ellipses, colons, brackets and '
        'lower-case continuations, and every short sequence of a set of representative pieces) are split by the library; the monitor checks '
        'that the sentences cover the text, that a boundary stands at the start of a token after sentence-ending punctuation, and compares every '
        'boundary and its kind with a reference splitter that asks a reference lexicon about abbreviations. A case is one text; non-trivial '
        'when it has a sentence boundary; distinct by text')
PIECES = ['sana', 'Sana', ' ', '  ', '.', '!', '?', '...', '\u2026', ':', '"', '”', '»', ',', 'esim.', 'A.', '12.', '1.2.2020', ')', '(', "'", '\n', '-', '\u201c', 'kissa.', 'klo']
ENDERS = '.!?:\u2026'


def lex():
    global F
    try:
        return F
    except NameError:
        F = finnish.Finnish(build.DEBIAN_MOR)
        return F


def judge(o, t, got, extra, cmds, k, res):
    f = lex()
    want, p, bounds = [], 0, 0

    def accepted(w):
        return f.speller(w, extra) != finnish.FAILED
    try:
        while p < len(t):
            ty, n = model.next_sentence(t[p:], accepted)
            want.append((ty, n))
            p += n
            if ty == model.S_NONE or n == 0:
                break
    except finnish.Unknown:
        o.stat('no statement by the model')
        return
    o.case(t if len(want) > 1 else None)
    o.stat('boundaries', len(want) - 1 if want else 0)
    for ty, _ in want:
        o.stat({0: 'end of text', 1: 'no start', 2: 'probable', 3: 'possible'}[ty])
    w = {'commands': check.context(cmds, k), 'text': t, 'answer': res[k], 'expected': want}
    if sum(n for _, n in got) != len(t) or any(n == 0 for _, n in got) or (got and (got[-1][0] != 0 or any(x[0] == 0 for x in got[:-1]))):
        return o.violation('partition', 'sentences of %r do not cover it exactly: %s' % (t[:300], got[:60]), w)
    p = 0
    for ty, n in got[:-1]:
        p += n
        before = t[:p].rstrip(''.join(model.WS))
        if not any(c in ENDERS for c in t[p - n:p]):
            o.violation('no-end', 'text %r: boundary at %d with no sentence-ending punctuation in the sentence before' % (t[:300], p), w)
    if got != want:
        d = next(i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1])
        o.violation('sentence', 'text %r: sentence %d is %s, should be %s' % (t[:300], d, got[d:d + 1], want[d:d + 1]), w)


ABBR = 'esim. mm. jne. yms. prof. tri n. eKr. jKr. ts. ns. klo v. s. ks. ym. em. nro puh. A. J.K. EU. 12. 1. 3.-4. 1.2. -5. 10.11.2012 kello. sana. mukaan-lukien. tms. os. t. K. Ä. 1,5. I. XX. Suomi. suomi. oy. Oy. FI. fi.'.split()


def para(r):
    out = []
    for _ in range(r.choice((1, 2, 3, 4, 6, 9))):
        k = r.random()
        if k < 0.35:
            out.append(r.choice(gen.corpus_words()))
        elif k < 0.45:
            out.append(r.choice(gen.corpus_words()) + r.choice(('.', '.', '!', '?', '...', ':', '\u2026', '."', '.)', '!"', '?»', '!”,')))
        elif k < 0.7:
            w = r.choice(ABBR)
            if r.random() < 0.2:
                w = gen.recase(r, w)
            if r.random() < 0.1:
                w += r.choice('.,!?")')
            out.append(w)
        elif k < 0.8:
            out.append(gen.base_word(r).capitalize() + r.choice(('', '.', '!', '?', ':')))
        elif k < 0.95:
            out.append(r.choice(('"', '"', '”', '»', '\u201c')) + r.choice(gen.corpus_words()) + r.choice(('"', '"', '."', '!"', '?"', '",', '!",', '?»,', '”.', '"?', '"...')))
        else:
            out.append(r.choice(('(', ')', '-', '–', '[1]', '&', '/', '...', '.', '!', '?', ':', '"')))
    s = ''
    for w in out:
        s += w + r.choice((' ', ' ', ' ', ' ', '  ', '', '\n', '\u00a0', '\t'))
    return s if r.random() < 0.5 else s.rstrip()


def texts(o, i, n):
    r = o.rng
    cmds, plan, extra = [work.init(0)], [], 0
    for _ in range(n):
        if r.random() < 0.04:
            k, v = r.choice((11, 0, 6, 7, 10, 3, 12)), r.randrange(2)
            cmds.append('bo\t0\t%d\t%d' % (k, v))
            if k == 11:
                extra = v
            continue
        k = r.random()
        t = para(r) if k < 0.6 else gen.text(r) if k < 0.85 else ''.join(r.choice(PIECES) for _ in range(r.choice((2, 4, 6, 10))))
        t = t.replace('\uffff', '').replace('\0', '')
        cmds.append('stU\t0\t' + U(t))
        plan.append((len(cmds) - 1, t, extra))
    cmds.append('term\t0')
    res = o.run(cmds)
    if res is None:
        return
    for k, t, extra in plan:
        judge(o, t, drv.dec_pairs(res[k]), extra, cmds, k, res)
    o.sample({'text': plan[-1][1][:120], 'sentences': res[plan[-1][0]][:100]})


def grid(o, i, parts, maxlen):
    plan, k = [], 0
    for n in range(1, maxlen + 1):
        for s in itertools.product(PIECES, repeat=n):
            k += 1
            if k % parts == i:
                plan.append(''.join(s))
    cmds = [work.init(0)] + ['stU\t0\t' + U(t) for t in plan] + ['term\t0']
    res = o.run(cmds)
    if res is None:
        return
    for j, t in enumerate(plan):
        judge(o, t, drv.dec_pairs(res[j + 1]), 0, cmds, j + 1, res)


def abbreviations(o, i, n):
    """real words of the lexicon with a period, in front of lower and upper case"""
    r = o.rng
    plan = []
    f = lex()
    for _ in range(n):
        w = gen.base_word(r)
        k = r.random()
        if k < 0.3:
            w = f.lex.fst.walk(r, r.choice((2, 3, 5, 8))) or w
        if k > 0.9:
            w = gen.recase(r, w)
        if k < 0.1:
            w = gen.denorm(r, w)
        plan.append(r.choice(('', 'Ja ', 'x, ')) + w + ('' if w.endswith('.') else '.') + r.choice((' ', ' ', '\n')) + r.choice(('sana', 'Sana', '1', '"Sana', '(sana)', '-sana')))
    plan = [t for t in plan if '\uffff' not in t]
    cmds = [work.init(0)] + ['stU\t0\t' + U(t) for t in plan] + ['term\t0']
    res = o.run(cmds)
    if res is None:
        return
    for j, t in enumerate(plan):
        judge(o, t, drv.dec_pairs(res[j + 1]), 0, cmds, j + 1, res)


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    lex()
    c.shards(texts, c.n(128, 2500), 700)
    c.shards(abbreviations, c.n(64, 1000), 500)
    c.shards(grid, 16, 16, c.n(3, 4))
    c.need = 10000


if __name__ == '__main__':
    check.main('C07', RULE, body, assumptions=['the reference splitter states the documented sentence rules; the reference lexicon reads the same dictionary file; code points 1..0x10FFFF except U+FFFF'])
