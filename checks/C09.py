"""C09: hyphenation points follow compound structure, syllable rules and options."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, work, words
from drv import U, C, OPT

RULE = ('seeded words (lexicon words, compounds, ambiguous compounds, unknown words, vowel and consonant clusters) under random settings of the '
        'hyphenation options; the monitor compares every pattern with a reference hyphenator (readings of a reference lexicon, syllable rules), '
        'and checks directly that forbidding ugly break points only removes points, that unknown words and short words obey their options. A case '
        'is one word with its options; non-trivial when the reference offers a break; distinct by word and options')


def run(o, i, n):
    r = o.rng
    f = words.lex()
    cmds, plan = [work.init(0)], []
    opts = dict(finnish.DEFAULTS)
    for _ in range(n):
        if r.random() < 0.05:
            if r.random() < 0.65:
                k, v = r.choice((0, 4, 15, 4, 15, 10, 11, 8)), r.randrange(2)
                cmds.append('bo\t0\t%d\t%d' % (k, v))
            else:
                k, v = 9, r.choice((-1, 0, 1, 2, 2, 3, 4, 5, 6, 8, 12, 40))
                cmds.append('io\t0\t9\t%d' % v)
            opts[k] = v
            continue
        k = r.random()
        w = words.word(r, 0.7) if k < 0.6 else words.compound(r) if k < 0.72 else words.syllables(r)
        if r.random() < 0.03:
            w = gen.hostile_word(r)
        w = w.replace('\uffff', '').replace('\ufffe', '').replace('\0', '')
        cmds.append('hyU\t0\t' + U(w))
        plan.append((len(cmds) - 1, w, dict(opts)))
    # the same words with ugly points forbidden and allowed, everything else at the default
    rest = [p[1] for p in plan[::4]]
    cmds += ['bo\t0\t0\t0', 'bo\t0\t15\t1', 'io\t0\t9\t2', 'bo\t0\t4\t1']
    a0 = len(cmds)
    cmds += ['hyU\t0\t' + U(w) for w in rest] + ['bo\t0\t4\t0']
    b0 = len(cmds)
    cmds += ['hyU\t0\t' + U(w) for w in rest] + ['term\t0']
    res = o.run(cmds)
    if res is None:
        return
    for k, w, op in plan:
        try:
            want = f.hyphenate(w, op)
        except finnish.Unknown:
            o.stat('no statement by the model')
            continue
        want = [want] if isinstance(want, str) else want
        got = drv.dec_pattern(res[k])
        nd = {a: b for a, b in op.items() if b != finnish.DEFAULTS[a]}
        o.case((w, str(sorted(nd.items()))) if want[0].strip() else None)
        if len(want) > 1:
            o.stat('words with several readings')
        if got not in want:
            kind = 'no pattern' if got is None else 'extra break' if any(g != ' ' and all(x[j:j + 1] == ' ' for x in want) for j, g in enumerate(got)) else 'missing break'
            o.violation(kind, 'word %r options %s: pattern %r, should be %r (%s)' % (w[:200], nd, got, want[0], kind),
                        {'commands': check.context(cmds, k), 'word': w, 'options': nd, 'pattern': got, 'expected': want})
    for j, w in enumerate(rest):
        x, y = drv.dec_pattern(res[a0 + j]), drv.dec_pattern(res[b0 + j])
        o.case()
        if x is None or y is None or any(p != ' ' and q == ' ' for p, q in zip(x, y)):
            o.violation('ugly-adds', 'word %r: forbidding ugly points gives %r, allowing them %r' % (w[:200], x, y),
                        {'commands': check.context(cmds, a0 + j), 'word': w, 'restricted': x, 'all': y})
    o.sample({'word': plan[-1][1][:60], 'pattern': drv.dec_pattern(res[plan[-1][0]])})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(320, 4000), 1500)
    c.need = 20000


if __name__ == '__main__':
    check.main('C09', RULE, body, assumptions=['the reference hyphenator states the syllable rules; words with more than 31 readings are left out; code points 1..0x10FFFF except U+FFFE and U+FFFF'])
