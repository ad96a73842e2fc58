"""C15: grammar errors lie inside the text and can be enumerated completely."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check, drv, finnish, gen, grammar, model, work, words
import C16
from drv import U, C, OPT

RULE = ('seeded paragraphs (faulty, real, mutated, very long, hostile strings) whose errors are enumerated by skip count, asked for in random order with random start '
        'positions and skip counts, interleaved with other texts and with texts that are prefixes or extensions of each other, and given with and without a terminator '
        'and inside longer buffers; monitors: every error non-empty and inside the text, known code, non-empty description in each language, enumeration in text order, '
        'every answer to (start, skip) equals the one the complete list implies, and the list is the same every time, in both text forms. '
        'A case is one question about a text; non-trivial when it has an error; distinct by text, start and skip')
CODES = range(1, 19)
TAILS = ['a', '.', ' ', ',,', 'sana. ', '\u00ad', 'x  x', '"', '\n', '0']


def text(r):
    k = r.random()
    if k < 0.6:
        return C16.para(r)
    if k < 0.75:
        return gen.mutate_text(r, C16.para(r))
    if k < 0.9:
        return gen.text(r)
    return ' '.join(C16.sentence(r) for _ in range(r.choice((5, 20, 40))))[:2500]


def run(o, idx, n):
    r = o.rng
    cmds, plan = [work.init(0), work.init(1)], []
    ts = []
    for _ in range(n):
        t = ''.join(c for c in text(r) if c not in '\0\uffff\ufffe' and not 0xD800 <= ord(c) < 0xE000)
        if t:
            ts.append(t)
    while len(ts) < n + n // 3:
        t = r.choice(ts)
        ts.append(r.choice((t + r.choice(TAILS), t[:-1] or 'a', t[:r.randrange(len(t)) + 1], t[1:] or 'b', t + t)))
    if idx % 3 == 1:
        for h in (0, 1):
            cmds += ['bo\t%d\t%d\t1' % (h, k) for k in r.sample((13, 14, 16), r.choice((1, 2, 3)))] if h == 0 else [c.replace('bo\t0', 'bo\t1') for c in cmds if c.startswith('bo\t0')]
    full = []
    for t in ts:
        full.append(len(cmds))
        cmds.append('gaU\t1\t%s\tfi' % U(t))
    for _ in range(n * 8):
        j = r.randrange(len(ts))
        if r.random() < 0.6 and plan:
            j = plan[-1][1]
        t = ts[j]
        k = r.random()
        if k < 0.05:
            cmds.append('gaU\t0\t' + U(t) + '\ten')
            plan.append(('all', j, None, None))
        elif k < 0.08:
            cmds.append('gaZ\t0\t' + U(t))
            plan.append(('all', j, None, None))
        elif k < 0.11:
            cmds.append('gaX\t0\t' + U(t) + '\t' + U(r.choice(TAILS) + r.choice(TAILS)))
            plan.append(('all', j, None, None))
        elif k < 0.14:
            cmds.append('gaC\t0\t' + C(t))
            plan.append(('all', j, None, None))
        else:
            sp = r.choice((0, 0, 0, r.randrange(len(t) + 1), r.randrange(len(t) + 1), len(t), len(t) + 5, -1))
            sk = r.choice((0, 0, 1, 1, 2, 3, 4, 5, 8, 13, 60, r.randrange(30)))
            f = 'U' if r.random() < 0.75 else 'C'
            cmds.append('gr%s\t0\t%s\t%d\t%d\t%s' % (f, U(t) if f == 'U' else C(t), sp if sp >= 0 else len(t) // 2, sk, r.choice(('fi', 'en', 'sv', 'fi_FI'))))
            plan.append(('one', j, sp if sp >= 0 else len(t) // 2, sk))
    at = len(cmds) - len(plan)
    res = o.run(cmds + ['term\t0', 'term\t1'])
    if res is None:
        return
    lists = []
    for j, t in enumerate(ts):
        es = drv.dec_errors(res[full[j]])
        lists.append([e[:4] for e in es])
        o.stat('errors', len(es))
        ctx = {'text': t, 'errors': [e[:4] for e in es]}
        p = -1
        for e in es:
            if e[2] < 1 or e[1] < 0 or e[1] + e[2] > len(t):
                o.violation('outside-%d' % e[0], 'text %r (length %d): error %r is empty or not inside the text' % (t[:300], len(t), e), ctx)
            if e[0] not in CODES:
                o.violation('code', 'text %r: unknown error code %d' % (t[:300], e[0]), ctx)
            if e[1] < p:
                o.violation('order', 'text %r: errors are not in text order: %r' % (t[:300], [x[:3] for x in es[:12]]), ctx)
            if not e[4] or e[4] == 'Tuntematon virhe':
                o.violation('description', 'text %r: error %r has no description' % (t[:300], e), ctx)
            p = e[1]
        if len(es) >= 2000:
            o.violation('endless', 'text %r: the enumeration does not end' % t[:300], ctx)
        if len(set(map(repr, lists[-1]))) < len(es):
            o.violation('twice', 'text %r: an error is enumerated twice: %r' % (t[:300], [x[:3] for x in es[:12]]), ctx)
    for q, (kind, j, sp, sk) in enumerate(plan):
        want = lists[j]
        a = res[at + q]
        w = {'commands': check.context(cmds, at + q), 'text': ts[j], 'errors': want, 'answer': a}
        if kind == 'all':
            got = [e[:4] for e in drv.dec_errors(a)]
            o.case((ts[j], cmds[at + q][:3]) if want else None)
            if got != want:
                o.violation('list', 'text %r: the errors are %r this time (%s) and %r another' % (ts[j][:300], got[:6], cmds[at + q][:3], want[:6]), w)
            continue
        exp = [e for e in want[sk:] if e[1] >= sp][:1]
        e = None if a == 'N' else drv.dec_error(a)
        got = [] if e is None else [e[:4]]
        o.case((ts[j], sp, sk) if want else None)
        o.stat('answers with an error' if got else 'answers without')
        if got != exp:
            o.violation('nth', 'text %r, start %d, skip %d: got %r, the list implies %r' % (ts[j][:300], sp, sk, got, exp), w)
        if e is not None and (not e[4] or e[4] in ('Tuntematon virhe', 'Unknown error')):
            o.violation('description', 'text %r: error %r has no description' % (ts[j][:300], e), w)
    o.sample({'text': ts[0][:100], 'errors': lists[0][:3]})


def messages(o, idx):
    cmds = ['em\t%d\t%s' % (c, l) for l in ('fi', 'fi_FI', 'en', 'en_US') for c in CODES]
    res = o.run(cmds)
    if res is None:
        return
    seen = {}
    for c, a in zip(cmds, res):
        _, code, lang = c.split('\t')
        m = drv.unC(a) if a != 'N' else None
        o.case(('message', code, lang))
        if not m or m in ('Tuntematon virhe', 'Unknown error'):
            o.violation('message', 'no description of error %s in %s' % (code, lang), {'code': code, 'language': lang})
        elif seen.setdefault((lang, m), code) != code:
            o.violation('message', 'errors %s and %s have the same description %r' % (seen[lang, m], code, m), {'code': code, 'language': lang})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(messages, 1)
    c.shards(run, c.n(480, 6000), 60)
    c.need = 5000


if __name__ == '__main__':
    check.main('C15', RULE, body, assumptions=['texts without null characters'])
