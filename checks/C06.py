"""C06: tokens partition the text and carry the right type."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, model, work
from drv import U, C, OPT
from C05 import longtoken

RULE = ('seeded texts (real, mutated, random mixtures of the character classes, addresses, numbers, runs at boundary lengths, every short '
        'string over a set of class representatives) are split by the library; the monitor checks that tokens are non-empty and cover the '
        'text exactly, and compares types and lengths with a reference tokenizer, with the trailing-period option on and off. A case is '
        'one text; non-trivial when it has at least two tokens or an address; distinct by text and option')
REP = ['a', 'Ä', 'À', '7', ' ', '\t', '.', ',', '-', '\u2010', '\u00ad', "'", '\u2019', ':', '!', '"', '”', '\u201c', '(', '/', '&', '@', '_', '€', '\u2026', '–', 'ﬁ', 'b.c@d.ef', 'http://a.bc/d']


def boundary_chars():
    """every code point next to an edge of a character class, and the ordinary ones"""
    cs = set(range(1, 0x600)) | set(range(0x13f0, 0x1410)) | set(range(0x15b0, 0x15d0)) | set(range(0x1670, 0x1690)) | set(range(0x1800, 0x1810)) | \
        set(range(0x1ff0, 0x2070)) | set(range(0x2ff0, 0x3010)) | set(range(0xfaf0, 0xfb10)) | {0xfeff, 0xfffd, 0x10000, 0x1f642, 0x10ffff}
    return [chr(c) for c in sorted(cs)]


def judge(o, t, toks, dot, cmds, k, res):
    want = model.tokens(t, dot)
    got = toks[:-1] if toks and toks[-1][0] == 0 else toks
    o.case((t, dot) if len(want) > 1 or len(t) > 20 else None)
    o.stat('tokens', len(got))
    w = {'commands': check.context(cmds, k), 'text': t, 'answer': res[k], 'expected': want}
    if not toks or toks[-1] != (0, 0) or any(n == 0 for _, n in got) or sum(n for _, n in got) != len(t):
        o.violation('partition', 'tokens of %r do not cover it exactly: %s' % (t[:300], toks[:60]), w)
    elif got != want:
        d = next(i for i in range(len(got)) if i >= len(want) or got[i] != want[i])
        p = sum(n for _, n in got[:d])
        kinds = ''.join(model.ctype(c) for c in t[p:p + 12])
        o.violation('token:%d/%d' % (got[d][0], want[d][0] if d < len(want) else -1),
                    'text %r: token %d at %d is %s, should be %s (period kept: %s; classes %s)' % (t[:300], d, p, got[d], want[d] if d < len(want) else None, dot, kinds), w)


def texts(o, i, n):
    r = o.rng
    cmds, plan, dot = [work.init(0)], [], False
    for _ in range(n):
        if r.random() < 0.1:
            dot = r.random() < 0.5
            cmds.append('bo\t0\t0\t%d' % dot)
            continue
        k = r.random()
        if k < 0.35:
            t = gen.text(r)
        elif k < 0.5:
            t = longtoken(r)
        elif k < 0.85:
            t = ''.join(r.choice(REP) for _ in range(r.choice((1, 2, 3, 4, 5, 6, 8, 12))))
        elif k < 0.87:
            t = gen.big_text(r)
        else:
            t = ''.join(gen.ext_char(r) if r.random() < 0.4 else r.choice(REP) for _ in range(r.choice((2, 4, 8, 20))))
        if r.random() < 0.1:
            t = gen.mutate_text(r, t)
        cmds.append(r.choice(('tkU', 'tkX')) + '\t0\t' + U(t))
        plan.append((len(cmds) - 1, t, dot))
    cmds.append('term\t0')
    res = o.run(cmds)
    if res is None:
        return
    for k, t, dot in plan:
        judge(o, t, drv.dec_pairs(res[k]), dot, cmds, k, res)
    o.sample({'text': plan[-1][1][:100], 'tokens': res[plan[-1][0]][:100]})


def grid(o, i, parts, maxlen):
    """all strings of representatives up to maxlen, and every code point near a class edge in small contexts"""
    import itertools
    cmds, plan = [work.init(0), 'bo\t0\t0\t%d' % (i % 2)], []
    k = 0
    for n in range(0, maxlen + 1):
        for s in itertools.product(REP, repeat=n):
            k += 1
            if k % parts == i:
                plan.append(''.join(s))
    for c in boundary_chars():
        k += 1
        if k % parts == i:
            plan += [c, 'a' + c, 'a' + c + 'b', c + 'b', '-' + c, 'a-' + c, '1,' + c, 'a.' + c, 'a@b.c' + c + 'd', 'a' + c + 'b@c.de', 'http://a.bc/' + c + 'd']
    cmds += ['tkU\t0\t' + U(t) for t in plan] + ['term\t0']
    res = o.run(cmds)
    if res is None:
        return
    for j, t in enumerate(plan):
        judge(o, t, drv.dec_pairs(res[j + 2]), bool(i % 2), cmds, j + 2, res)


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    c.shards(texts, c.n(128, 3000), 1200)
    c.shards(grid, 16, 16, c.n(3, 4))
    c.extra['exhaustive_part'] = 'all strings of up to %d representatives of %d' % (c.n(3, 4), len(REP))
    c.need = 10000


if __name__ == '__main__':
    check.main('C06', RULE, body, assumptions=['the reference tokenizer states the documented token rules; code points 1..0x10FFFF'])
