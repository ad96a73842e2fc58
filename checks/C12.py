"""C12: equivalent Unicode spellings of a word are treated alike."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, suggest, work, words
from drv import U, C, OPT

RULE = ('words with equivalent encodings (every composable letter and mark of the equivalence, ligatures, degree signs, hyphen and apostrophe variants, placed at every '
        'position; random mixtures in lexicon words and misspellings) in both text forms and under random options; the monitor demands the same verdict and the same '
        'suggestions (written with the hyphens and apostrophes of the caller where the word is unchanged) as for the plain spelling. A case is one pair of equivalent '
        'spellings; non-trivial when they differ; distinct by the pair')
INV = {}
for _k, _v in model.COMPOSE.items():
    INV.setdefault(_v, []).append(_k)
EXP = {}
for _k, _v in model.SINGLE.items():
    EXP.setdefault(_v, []).append(_k)


def variant(r, w, p=0.7):
    """another spelling of the same (normalised) word"""
    for _ in range(6):
        out, i = [], 0
        while i < len(w):
            cand = [w[i]]
            step = 1
            if r.random() < p:
                opts = [(1, x) for x in INV.get(w[i], ())]
                for n in (1, 2, 3):
                    opts += [(n, x) for x in EXP.get(w[i:i + n], ()) if len(w[i:i + n]) == n]
                if opts:
                    step, c = r.choice(opts)
                    cand = [c]
            out += cand
            i += step
        v = ''.join(out)
        if model.normalise(v) == w:
            return v
    return w


def enrich(r, w):
    """put characters with several spellings into the word"""
    k = r.random()
    if k < 0.35:
        return w
    i = r.randrange(len(w) + 1)
    x = r.choice(list(INV) + list(EXP) * 3)
    if k < 0.8:
        return w[:i] + x + w[i:]
    return w[:i] + x + w[i + 1:]


def run(o, idx, nsp, nsg):
    r = o.rng
    f = words.lex()
    cmds, plan, op = [work.init(0), work.init(1)], [], {}

    def opt():
        k, v = r.choice((0, 1, 3, 6, 7, 8, 10, 11, 12)), r.randrange(2)
        op[k] = v
        cmds.extend(['bo\t0\t%d\t%d' % (k, v), 'bo\t1\t%d\t%d' % (k, v)])
    for j in range(nsp + nsg):
        if r.random() < 0.05:
            opt()
        w = words.word(r, 0.7) if r.random() < 0.8 else r.choice(words_with(r))
        if j >= nsp:
            for _ in range(r.choice((0, 1, 1))):
                w = gen.edit(r, w)
        w = model.normalise(''.join(c for c in enrich(r, w) if c not in '\0\uffff\ufffe'))[:80]
        w = model.normalise(w)
        v = variant(r, w)
        u = 'C' if r.random() < 0.4 and len(v.encode()) <= 255 else 'U'
        e = C if u == 'C' else U
        c = 'sp' if j < nsp else 'sg'
        cmds.append(c + 'U\t0\t' + U(w))
        cmds.append(c + u + '\t1\t' + e(v))
        plan.append((len(cmds) - 2, c, w, v, u == 'U', dict(op)))
    # every equivalence at every place of a word
    if idx < 8:
        base = ('kissa', 'kivikauhea', 'Suomi', 'EU')[idx % 4]
        for x in list(INV) + list(EXP):
            for y in INV.get(x, []) + EXP.get(x, []):
                for i in range(len(base) + 1):
                    w, v = base[:i] + x + base[i:], base[:i] + y + base[i:]
                    if model.normalise(v) != w or model.normalise(w) != w:
                        continue
                    c = 'sg' if idx < 4 else 'sp'
                    cmds += [c + 'U\t0\t' + U(w), c + 'U\t1\t' + U(v)]
                    plan.append((len(cmds) - 2, c, w, v, True, dict(op)))
    res = o.run(cmds + ['term\t0', 'term\t1'])
    if res is None:
        return
    for k, c, w, v, wide, p in plan:
        o.case((w, v) if w != v else None)
        if c == 'sp':
            o.stat('pairs of verdicts, %s' % ('accepted' if res[k] == '1' else 'rejected'))
            if res[k] != res[k + 1]:
                o.violation('verdict', 'verdict for %r is %s, for the equivalent %r it is %s (options %s)' % (w, res[k], v, res[k + 1], p),
                            {'plain': w, 'variant': v, 'codepoints': [hex(ord(x)) for x in v], 'verdicts': [res[k], res[k + 1]], 'options': p})
            continue
        a, b = drv.dec_list(res[k], True), drv.dec_list(res[k + 1], wide)
        dot = p.get(0) and w.endswith('.') and len(w) > 2
        want = None if a is None else [suggest.reformat(v[:-1] if dot else v, s) for s in a]
        o.stat('pairs of suggestion lists' + (' (none)' if not a else ''))
        if len(v) <= 1 or len(w) <= 1:
            continue
        if b != want:
            o.violation('suggestions', 'suggestions for %r: %r, for the equivalent %r: %r, should be %r (options %s)' % (w, a, v, b, want, p),
                        {'plain': w, 'variant': v, 'codepoints': [hex(ord(x)) for x in v], 'suggestions': [a, b], 'expected': want, 'options': p})
    o.sample({'plain': plan[-1][2], 'variant': [hex(ord(x)) for x in plan[-1][3]]})


_W = []


def words_with(r):
    """words that contain letters with several spellings"""
    if not _W:
        _W.extend(w for w in gen.corpus_words() if any(c in INV or c in "-'" for c in w) or any(x in w for x in ('fi', 'fl', 'ff')))
    return _W


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(320, 4000), 1200, 60)
    c.need = 20000


if __name__ == '__main__':
    check.main('C12', RULE, body, assumptions=['the equivalence is that of the library\'s normalisation tables, restated in lib/model.py'])
