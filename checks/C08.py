"""C08: hyphenation patterns fit the word and insert losslessly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work, words
from drv import U, C, OPT

RULE = ('seeded words (lexicon words and compounds, misspelled, decomposed, with ligatures, apostrophes, hyphens, soft hyphens and foreign characters, at boundary '
        'lengths) under random option settings; the monitor checks the shape of every pattern, that the inserted form is exactly the word with the '
        'separator placed at the marks (with context changes allowed and not), and that the word is recovered from it. A case is one word with '
        'its options; non-trivial when the pattern has a mark; distinct by word, options and separator')
SEPS = ['-', '\u00ad', '&shy;', '=', '', '--', '·', '|', 'ä']
HY = '-'
APO = "'"


def run(o, i, n, which):
    r = o.rng
    cmds, plan = [work.init(0, which)], []
    opts = {}
    for _ in range(n):
        if r.random() < 0.04:
            if r.random() < 0.6:
                k, v = r.choice((0, 4, 15)), r.randrange(2)
                cmds.append('bo\t0\t%d\t%d' % (k, v))
            else:
                k, v = 9, r.choice((-1, 0, 1, 2, 3, 4, 5, 8, 12, 40, 300))
                cmds.append('io\t0\t9\t%d' % v)
            opts[k] = v
            continue
        k = r.random()
        w = words.word(r) if k < 0.6 else words.syllables(r) if k < 0.8 else gen.word(r, 0.6) if k < 0.97 else r.choice(list(work.grid_words()))
        w = w.replace('\0', '').replace('\uffff', '').replace('\ufffe', '')
        sep = r.choice(SEPS)
        cmds.append('hyU\t0\t' + U(w))
        cmds.append('ih\t0\t%s\t%s\t0' % (C(w), C(sep)))
        cmds.append('ih\t0\t%s\t%s\t%d' % (C(w), C(sep), r.choice((1, 1, 2, -1))))
        plan.append((len(cmds) - 3, w, sep, str(sorted(opts.items()))))
    cmds.append('term\t0')
    res = o.run(cmds)
    if res is None:
        return
    for k, w, sep, op in plan:
        p = drv.dec_pattern(res[k])
        keep, change = drv.dec_str(res[k + 1]), drv.dec_str(res[k + 2])
        o.case((w, op, sep) if p and ('-' in p or '=' in p) else None)
        wit = {'commands': check.context(cmds, k + 2), 'word': w, 'pattern': p, 'kept': keep, 'changed': change}

        def bad(key, msg):
            o.violation(key, 'word %r pattern %r (separator %r, options %s): %s' % (w[:300], p, sep, op, msg), wit)
        toolong = len(w.encode('utf-8')) > 255
        if p is None:
            if len(w) <= 255:
                bad('refused', 'no pattern for a word of %d characters' % len(w))
            continue
        if len(p) != len(w):
            bad('length', 'pattern has %d marks for %d characters' % (len(p), len(w)))
            continue
        if set(p) - set(' -='):
            bad('alphabet', 'marks other than space, - and =')
        if p[:1] in ('-', '='):
            bad('first', 'a break before the first character')
        for c, m in zip(w, p):
            if m == '=' and c not in (HY, APO):
                bad('replaces', 'a break that replaces %r' % c)
                break
        for m in p:
            o.stat({' ': 'no break', '-': 'break', '=': 'replacing break'}.get(m, 'other'))
        if toolong:
            if keep is not None or change is not None:
                bad('toolong', 'a word of %d bytes was not refused' % len(w.encode('utf-8')))
            o.stat('refused: too long')
            continue
        want0 = ''.join((sep if m == '-' else '') + c for c, m in zip(w, p))
        want1 = ''.join((sep + c) if m == '-' else c if m == ' ' else (c if c == '-' else sep) for c, m in zip(w, p))
        if keep != want0:
            bad('insert', 'without context changes gave %r, the marks say %r' % (keep, want0))
        if change != want1:
            bad('insert-change', 'with context changes gave %r, the marks say %r' % (change, want1))
        if sep and sep not in w and keep is not None and keep.replace(sep, '') != w:
            bad('lossless', 'removing the separators gives %r' % keep.replace(sep, ''))
    o.sample({'word': plan[-1][1][:60], 'pattern': res[plan[-1][0]][:80], 'with hyphens': drv.dec_str(res[plan[-1][0] + 1])})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    build.dict_svfst()
    words.lex()
    c.shards(run, c.n(256, 3000), 1500, 'full')
    c.shards(run, c.n(16, 200), 1000, 'svfst')
    c.need = 20000


if __name__ == '__main__':
    check.main('C08', RULE, body, assumptions=['code points 1..0x10FFFF except U+FFFE and U+FFFF'])
