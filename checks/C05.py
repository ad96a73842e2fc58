"""C05: the UTF-8, wide-character and older interfaces give the same answers; malformed UTF-8 is rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work
from drv import U, C, OPT

RULE = ('seeded words and texts, each sent through every pair of equivalent calls (UTF-8 / wide, current / deprecated) of handles with equal '
        'options, answers compared; byte strings mutated into malformed UTF-8 (judged by an independent decoder) sent to every UTF-8 call, '
        'which must refuse them. A case is one pair or one refusal; non-trivial when the answers are not both empty')


def clean(s):
    # no null characters (strings end there)
    return s.replace('\0', '')


def norm(op, r, wide):
    """an answer in terms of characters"""
    if op in ('sg', 'osg'):
        return drv.dec_list(r, wide)
    if op in ('hy', 'ohy'):
        return drv.dec_pattern(r)
    if op in ('an', 'oan'):
        a = drv.dec_analyses(r, wide)
        return a
    if op in ('ga', 'oga'):
        return drv.dec_errors(r)
    return r


def words(o, i, n):
    r = o.rng
    which = work.pick(i, 6)
    cmds = [work.init(0, which)]
    old = which == 'full'
    if old:
        cmds.append('oinit\t1\t%s\t0\t%s' % (OPT('full'), OPT(build.dict_full())))
    plan = []
    for _ in range(n):
        if r.random() < 0.05:
            k, v = r.choice(gen.BOOL_OPTS), r.randrange(2)
            cmds.append('bo\t0\t%d\t%d' % (k, v))
            if old:
                cmds.append('obo\t1\t%d\t%d' % (k, v))
                plan.append(('opt', len(cmds) - 2, len(cmds) - 1, None))
            continue
        if r.random() < 0.01:
            v = r.randrange(0, 9)
            cmds.append('io\t0\t9\t%d' % v)
            if old:
                cmds.append('oio\t1\t9\t%d' % v)
            continue
        w = clean(gen.word(r))
        b = w.encode('utf-8', 'surrogatepass')
        op = r.choice(('sp', 'sp', 'sg', 'hy', 'an'))
        q = [(op, op + 'U\t0\t' + U(w), True)]
        if len(b) <= 255:
            q.append((op, op + 'C\t0\t' + C(b), False))
        if old:
            q.append(('o' + op, 'o' + op + 'U\t1\t' + U(w), True))
            if len(b) <= 255:
                q.append(('o' + op, 'o' + op + 'C\t1\t' + C(b), False))
        idx = []
        for op2, c, wide in q:
            cmds.append(c)
            idx.append((len(cmds) - 1, op2, wide))
        plan.append((op, idx, w, len(b)))
    cmds += ['term\t0'] + (['oterm\t1'] if old else [])
    res = o.run(cmds)
    if res is None:
        return
    for p in plan:
        if p[0] == 'opt':
            if res[p[1]] != res[p[2]]:
                o.violation('option', 'setting an option: %s %s, deprecated %s' % (cmds[p[1]], res[p[1]], res[p[2]]), cmds[:p[2] + 1])
            continue
        op, idx, w, nb = p
        vals = [norm(op2, res[k], wide) for k, op2, wide in idx]
        if w == '' and op == 'an':
            vals = [v or [] for v in vals]
        for (k, op2, wide), v in zip(idx[1:], vals[1:]):
            o.case((op2, wide, w) if v not in (None, [], '0') else None)
            o.stat('pairs ' + cmds[k].split('\t')[0])
            if v != vals[0]:
                o.violation('words:%s:%s' % (op2, 'U' if wide else 'C'), '%s %r: wide %r, this call %r' % (cmds[k].split('\t')[0], w, vals[0], v),
                            {'commands': check.context(cmds, k), 'wide': res[idx[0][0]], 'other': res[k]})
    o.sample({'word': p[2] if p[0] != 'opt' else '', 'calls': [cmds[k].split('\t')[0] for k, _, _ in (idx if p[0] != 'opt' else [])]})


SEP = ',;:"()[]<>\u00a0 \n'


def longtoken(r):
    """addresses, URLs and long unbroken runs around the conversion windows"""
    k = r.randrange(7)
    n = r.choice((10, 40, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 60, 94, 95, 96, 99, 100, 101, 199, 201, 300))
    body = ''.join(r.choice(gen.LET + 'abcdefgh' + '0123456789._-+!&\'/?{}#$%*=^`|~') for _ in range(n))
    if k == 0:
        t = 'a' + body + '@' + ''.join(r.choice(gen.LET + '.-') for _ in range(r.choice((1, 5, 30, 48, 60)))) + r.choice(('.fi', '.', '', '.fi.', '.fi,'))
    elif k == 1:
        t = r.choice(('http://', 'https://')) + body + r.choice(('', '.', '.fi', ',', ')', '. '))
    elif k == 2:
        t = body
    elif k == 3:
        t = r.choice(gen.LET + ' .1') * n + r.choice(('', '.', ',1', ' a'))
    elif k == 4:
        t = '-' * r.choice((1, 2, 50)) + body + r.choice(('', '@a.fi'))
    elif k == 5:
        t = 'nimi.sukunimi' + '_' * r.choice((0, 1)) + 'x' * r.choice((1, 20, 30, 35, 36, 37)) + '@' + 'y' * r.choice((1, 5, 10, 30, 34, 35, 36)) + '.example.fi'
    else:
        t = ''.join(r.choice((body[:7], '1,2', '3.', "a'", 'a:', '..', '...')) for _ in range(20))
    return t + r.choice(('', ' loppu.', r.choice(SEP) + 'ja ' + 'muuta ' * r.choice((1, 20, 90))))


def texts(o, i, n):
    r = o.rng
    which = work.pick(i, 6)
    old = which == 'full'
    cmds = [work.init(0, which)]
    if old:
        cmds.append('oinit\t1\t%s\t0\t%s' % (OPT('full'), OPT(build.dict_full())))
    plan = []
    for _ in range(n):
        if r.random() < 0.05:
            k, v = r.choice((0, 13, 14, 16)), r.randrange(2)
            cmds.append('bo\t0\t%d\t%d' % (k, v))
            if old:
                cmds.append('obo\t1\t%d\t%d' % (k, v))
            continue
        t = gen.big_text(r) if r.random() < 0.01 else longtoken(r) if r.random() < 0.35 else gen.text(r)
        if r.random() < 0.1:
            t = t + ' ' + ' '.join(r.choice(gen.corpus_texts()) for _ in range(5))
        t = clean(t)
        op = r.choice(('tk', 'tk', 'tk1', 'st', 'st1', 'ga'))
        if not t and op in ('tk1', 'st1'):
            continue
        idx = []
        for c in (op + 'U\t0\t' + U(t), op + 'C\t0\t' + C(t)):
            cmds.append(c)
            idx.append(len(cmds) - 1)
        if old:
            for c in {'tk': ['otkU'], 'tk1': ['otk1C'], 'st1': ['ost1U', 'ost1C'], 'ga': ['ogaU', 'ogaC']}.get(op, ()):
                cmds.append(c + '\t1\t' + (U(t) if c[-1] == 'U' else C(t)))
                idx.append(len(cmds) - 1)
        plan.append((op, idx, t))
    cmds += ['term\t0'] + (['oterm\t1'] if old else [])
    res = o.run(cmds)
    if res is None:
        return
    for op, idx, t in plan:
        vals = [norm(op, res[k], None) for k in idx]
        for k, v in zip(idx[1:], vals[1:]):
            name = cmds[k].split('\t')[0]
            o.case((name, t) if v else None)
            o.stat('pairs ' + name)
            if v != vals[0]:
                o.violation('texts:' + name, '%s %r: wide %s, this call %s' % (name, t[:300], res[idx[0]][:200], res[k][:200]),
                            {'commands': check.context(cmds, k), 'wide': res[idx[0]], 'other': res[k]})


def valid(b):
    try:
        b.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def malformed(o, i, n):
    r = o.rng
    which = work.pick(i, 6)
    cmds = [work.init(0, which), 'oinit\t1\t%s\t0\t%s' % (OPT('full'), OPT(build.dict_full()))]
    plan = []
    for _ in range(n):
        if r.random() < 0.5:
            b = gen.bad_utf8(r, clean(gen.word(r)))
            if valid(b) or not b or len(b) > 255:
                continue
            op = r.choice(('spC', 'sgC', 'hyC', 'anC', 'ih', 'ospC', 'osgC', 'ohyC', 'oanC', 'ih2'))
            if op == 'ih':
                cmds.append('ih\t0\t%s\t2d\t1' % C(b))
            elif op == 'ih2':
                cmds.append('ih\t0\t%s\t%s\t1' % (C('kissanhäntä'), C(b)))
            else:
                cmds.append('%s\t%d\t%s' % (op, 1 if op[0] == 'o' else 0, C(b)))
            plan.append((op, len(cmds) - 1, b, None))
        else:
            b = gen.bad_utf8(r, clean(gen.text(r) + (' sanoja' * r.choice((0, 0, 50)))))
            if valid(b) or not b:
                continue
            op = r.choice(('tkC', 'tk1C', 'st1C', 'stC', 'gaC', 'otk1C', 'ost1C', 'ogaC'))
            cmds.append('%s\t%d\t%s' % (op, 1 if op[0] == 'o' else 0, C(b)))
            try:
                b.decode('utf-8')
            except UnicodeDecodeError as x:
                good = len(b[:x.start].decode('utf-8'))
            plan.append((op, len(cmds) - 1, b, good))
    cmds += ['term\t0', 'oterm\t1']
    res = o.run(cmds)
    if res is None:
        return
    for op, k, b, good in plan:
        o.case((op, b))
        o.stat('malformed ' + op)
        a = res[k]
        w = {'commands': check.context(cmds, k), 'bytes': repr(b), 'answer': a}
        ok = True
        if op in ('spC', 'ospC'):
            ok = a == '3'
        elif op in ('sgC', 'osgC', 'hyC', 'ohyC', 'anC', 'oanC', 'ih', 'ih2'):
            ok = a == 'N'
        elif op in ('gaC', 'ogaC'):
            ok = a == 'L'
        elif op in ('tkC', 'tk1C', 'otk1C'):
            toks = drv.dec_pairs(a) if op == 'tkC' else [drv.dec_pair(a)]
            covered = sum(x[1] for x in toks if x[0] != 0)
            # long texts are converted piece by piece: tokens before the first malformed sequence are right to report
            ok = covered <= good and (len(b) > 301 or covered == 0) and (toks[-1][0] == 0 or op != 'tkC')
        elif op in ('st1C', 'ost1C', 'stC'):
            ok = (a.split(' ')[1] if op == 'stC' else a).startswith('0:')
        if not ok:
            o.violation('malformed:' + op, '%s on malformed %r answered %s' % (op, b[:200], a[:200]), w)
    if plan:
        o.sample({'malformed': repr(plan[-1][2][:80]), 'call': plan[-1][0], 'answer': res[plan[-1][1]][:80]})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(words, c.n(64, 2400), 700)
    c.shards(texts, c.n(64, 2400), 500)
    c.shards(malformed, c.n(24, 800), 800)
    c.need = 10000


if __name__ == '__main__':
  check.main('C05', RULE, body, assumptions=[
    'words of at most 255 bytes in UTF-8 (longer ones are refused by the UTF-8 calls by design) and text without null characters',
    'long texts may be validated piece by piece by the tokenizer: tokens before the first malformed sequence may be reported'])
