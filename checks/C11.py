"""C11: spelling options change exactly what they document."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, model, work, words
from drv import U, C, OPT

RULE = ('seeded words sensitive to options (capitals in every pattern, digits anywhere, URLs and addresses and near misses of them, trailing periods, missing and extra hyphens, '
        'and plain words) under all 256 settings of the eight spelling options visited in random order by single changes, with other options changed in between and with '
        'unknown option numbers tried; the monitor compares every verdict with the reference verdict for the current setting, demands that unknown options are refused and '
        'change nothing, and that the recorded verdict vectors differ between two settings only for words the option is about. A case is one word under one setting; '
        'non-trivial when some setting changes the verdict of the word; distinct by word and setting')
OPTS = (0, 1, 3, 6, 7, 10, 11, 12)
OTHER = (4, 8, 13, 14, 15, 16)


PARTS = ('aero aerobi avo bi digi ensiö epä fenno ferro geo imaginaari jumal keski live läntis maalis multi myöhäis oheis online pappis riippu rinnakkais sosio supra '
         'syys säätyläis tele totaali täkäläis feodaali genitaali globaalis fyysis etelä pohjois ali yli hallitus lapsi nais puoleinen merkityinen niminen').split()


def sensitive(r):
    k = r.random()
    w = words.word(r, 0.8) or 'ja'
    if k < 0.15:
        return gen.recase(r, w)
    if k < 0.22:
        return model.uppers(w) if r.random() < 0.6 else model.uppers(gen.edit(r, w))
    if k < 0.34:
        i = r.randrange(len(w) + 1)
        d = r.choice(('1', '12', '0', '9', '7', '\u00b2', '\u0664', '\uff11', '4.', '\u00bd'))
        return gen.recase(r, w[:i] + d + w[i:])
    if k < 0.5:
        a = ''.join(r.choice('abkt.-_1') for _ in range(r.choice((0, 1, 2, 5, 9))))
        b = ''.join(r.choice('abkt.-_1') for _ in range(r.choice((0, 1, 2, 5, 9))))
        u = r.choice(('http://', 'https://', '//', '/', 'www.', 'WWW.', 'ww.', '@', 'x@', '@.', ':/', 'www', 'ftp://', '\uff20'))
        t = r.choice(('', '.', '.fi', 'fi', '.f', '..', 'x.y', '/x'))
        return r.choice((u + a + t, a + u + b + t, w + u + b + t))
    if k < 0.6:
        return w + r.choice(('.', '.', '.', '..', '...', '.-', '-.'))
    if k < 0.75 and len(w) > 2:
        i = r.randrange(1, len(w))
        w = w[:i] + '-' + w[i:]
        if r.random() < 0.3:
            i = r.randrange(1, len(w))
            w = w[:i] + '-' + w[i:]
        return w if r.random() < 0.7 else gen.recase(r, w)
    if k < 0.85:
        # compound parts on their own
        x = gen.base_word(r)
        return r.choice((w.replace('-', ''), x[:r.randrange(1, 5)], x + '-', '-' + x, x[:len(x) // 2], x[len(x) // 2:], x.rstrip('-'),
                         r.choice(PARTS) + r.choice(('', '', '', '-', '.')), r.choice(PARTS), r.choice(PARTS) + r.choice(('', '-')) + r.choice(PARTS)))
    return w


def run(o, idx, n):
    r = o.rng
    f = words.lex()
    lst = []
    while len(lst) < n:
        w = ''.join(c for c in sensitive(r) if c not in '\0\uffff\ufffe')
        if r.random() < 0.25:
            w = r.choice((gen.recase(r, w), w + '.', w + '-'))
        if w:
            lst.append(w)
    cmds, plan, cur, rets = [work.init(0)], [], dict(finnish.DEFAULTS), []
    order = list(range(256))
    r.shuffle(order)
    settings = [dict(zip(OPTS, (m >> b & 1 for b in range(8)))) for m in order]
    many = 'spM\t0\t' + ' '.join(U(w) for w in lst)
    for s in settings:
        for k in r.sample(OPTS, len(OPTS)):
            if cur[k] != s[k] or r.random() < 0.05:
                rets.append((len(cmds), 1))
                cmds.append('bo\t0\t%d\t%d' % (k, s[k] and r.choice((1, 1, 1, 2, -1, 256))))
                cur[k] = s[k]
        if r.random() < 0.3:
            rets.append((len(cmds), 1))
            cmds.append('bo\t0\t%d\t%d' % (r.choice(OTHER), r.randrange(2)))
        if r.random() < 0.2:
            rets.append((len(cmds), 0))
            cmds.append(r.choice(('bo', 'io')) + '\t0\t%d\t%d' % (r.choice((-1, 2, 5, 18, 19, 32, 64, 99, 1000, 257, -256, 65536, 2**31 - 1)), r.randrange(2)))
        if r.random() < 0.1:
            rets.append((len(cmds), 0))
            cmds.append(r.choice(('bo\t0\t9\t1', 'bo\t0\t17\t0', 'bo\t0\t17\t1')))
        if r.random() < 0.1:
            rets.append((len(cmds), 0))
            cmds.append('io\t0\t%d\t%d' % (r.choice((0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16)), r.randrange(2)))
        if r.random() < 0.1:
            rets.append((len(cmds), 1))
            cmds.append('io\t0\t9\t%d' % r.randrange(0, 9))
        plan.append((len(cmds), dict(cur)))
        cmds.append(many)
    res = o.run(cmds + ['term\t0'])
    if res is None:
        return
    for k, want in rets:
        o.case()
        if res[k] != str(want):
            o.violation('return', 'setting an option: %s returned %s, should be %d' % (cmds[k], res[k], want), {'commands': [cmds[0], cmds[k]]})
    verd = {}
    for k, op in plan:
        key = tuple(op[x] for x in OPTS)
        verd[key] = res[k]
    moved = [len({v[i] for v in verd.values()}) > 1 for i in range(n)]
    o.stat('words whose verdict depends on options', sum(moved))
    for b, x in enumerate(OPTS):
        o.stat('words sensitive to option %d' % x, sum(any(verd[k][i] != verd[k[:b] + (1 - k[b],) + k[b + 1:]][i] for k in verd) for i in range(n)))
    for k, op in plan:
        key = tuple(op[x] for x in OPTS)
        for i, w in enumerate(lst):
            try:
                want = f.spell(w, op)
            except finnish.Unknown:
                o.stat('no statement by the model')
                continue
            o.case((w, key) if moved[i] else None)
            if res[k][i] != '01'[want]:
                nd = {a: b for a, b in op.items() if b != finnish.DEFAULTS[a]}
                # which single option makes the difference
                o.violation('verdict-' + ('accepted' if res[k][i] == '1' else 'rejected'), 'word %r with options %s: verdict %s, should be %d' % (w[:200], nd, res[k][i], want),
                            {'word': w, 'options': nd, 'verdict': res[k][i], 'expected': int(want), 'commands': [c for c in cmds[max(0, k - 30):k] if not c.startswith('spM')]})
    # direct reading of the documentation on the recorded verdicts
    for i, w in enumerate(lst):
        nw = model.normalise(w)
        for key, v in verd.items():
            s = dict(zip(OPTS, key))
            o.case()
            msg = None
            if s[1] and any(model.is_digit(c) for c in nw) and v[i] != '1':
                msg = 'a word with digits is not ignored'
            if s[3] and model.casetype(nw) == model.ALL_UPPER and v[i] != '1':
                msg = 'a word in capitals is not ignored'
            for x, about in ((1, any(model.is_digit(c) for c in nw)), (3, model.casetype(nw) == model.ALL_UPPER), (6, model.is_upper(nw[:1])),
                             (7, model.casetype(nw) == model.ALL_UPPER), (0, nw[-1:] == '.'), (11, '-' in nw)):
                if not about and s[x]:
                    y = tuple(0 if z == x else s[z] for z in OPTS)
                    if verd[y][i] != v[i]:
                        msg = 'option %d changes the verdict although the word is not of its kind' % x
            if msg:
                o.violation('doc', 'word %r options %s: %s' % (w[:200], s, msg), {'word': w, 'options': s})
    o.sample({'word': lst[0][:60], 'verdicts over settings': sorted({v[0] for v in verd.values()})})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(96, 1600), 60)
    c.need = 20000


if __name__ == '__main__':
    check.main('C11', RULE, body, assumptions=['words where internal reading limits may be involved are left out'])
