"""C03: answers depend only on dictionary, options and input, not on history."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check, drv, gen, work
import C16
from drv import U, C, OPT

RULE = ('seeded histories of queries and option changes on one handle, drawn from small pools of words with their case, edit and encoding '
        'variants and of texts with their prefixes and near copies, so that queries repeat and interact; every answer is compared with the '
        'answer of a handle opened just for that query with the same option values set in another order. A case is one compared query; '
        'non-trivial when at least one other query or option change preceded it on the used handle')


def pools(r):
    ws = []
    for _ in range(r.choice((4, 8, 14))):
        w = work.nz(gen.word(r))
        ws.append(w)
        for _ in range(r.choice((0, 2, 4))):
            ws.append(r.choice((gen.recase, gen.edit, gen.denorm))(r, w))
        if r.random() < 0.3:
            ws += [w + '.', w.capitalize() if len(w.capitalize()) == len(w) else w, w + '-', w.replace('-', '')]
    ts = []
    for _ in range(r.choice((2, 4, 6))):
        k = r.random()
        t = gen.text(r) if k < 0.6 else work.nz(C16.para(r))[:1500]
        if k > 0.8:
            # sentence ends that depend on how abbreviations are spelled
            w = r.choice(('esim.', 'mm.', 'jne.', 'yms.', 'prof.', 'eKr.', 'huom.', 'engl.', 'toim.', 'tms.', 'vrt.'))
            i = r.randrange(1, len(w))
            t = 'Koira %s kissa nukkuu. ' % (w[:i] + r.choice('-\u00ad-') + w[i:]) + t[:200]
        ts.append(t)
        for _ in range(r.choice((0, 1, 3))):
            k = r.randrange(6)
            if k == 0:
                ts.append(t[:r.randrange(len(t) + 1)])
            elif k == 1:
                ts.append(t + r.choice((' ', '.', ' sana', 'x')))
            elif k == 2:
                ts.append(gen.mutate_text(r, t, 1))
            elif k == 3:
                ts.append(t.swapcase() if len(t.swapcase()) == len(t) else t)
            elif k == 4:
                ts.append(t[1:])
            else:
                i = r.randrange(len(t) + 1)
                ts.append(t[:i] + t[i:i + 1].swapcase()[:1] + t[i + 1:])
    if r.random() < 0.1:
        ts.append(gen.big_text(r))
    return ws, ts


def history(o, i, n):
    r = o.rng
    which = work.pick(i, 6)
    ws, ts = pools(r)
    st, cmds, pairs = {}, [work.init(0, which)], []
    other = r.random() < 0.2
    if other:
        cmds.append(work.init(2, 'full'))
    popt = r.choice((0.05, 0.2, 0.4))
    for _ in range(n):
        k = r.random()
        if k < popt:
            # favour going back and forth on a few options
            opt = r.choice(list(st)) if st and r.random() < 0.5 else r.choice(gen.BOOL_OPTS + (9, 9, 17))
            if opt == 9:
                st[opt] = 'io\t%%d\t9\t%d' % r.choice((0, 2, 3, 5, 7, 10))
            elif opt == 17:
                st[opt] = 'io\t%%d\t17\t%d' % r.randrange(-1, 4)
            else:
                st[opt] = 'bo\t%%d\t%d\t%d' % (opt, r.randrange(2))
            cmds.append(st[opt] % 0)
            continue
        if other and k > 0.95:
            cmds.append(work.query(r, 2))
            continue
        if k > 0.9:
            # queries nobody compares, with anything in them
            cmds.append(work.query(r, 0))
            continue
        if r.random() < 0.6:
            w = r.choice(ws)
            op = r.choice(('sp', 'sp', 'sg', 'hy', 'an'))
            q = op + r.choice('UUC')
            q += '\t%d\t' + (U(w) if q[-1] == 'U' else C(w))
        else:
            t = r.choice(ts)
            op = r.choice(('tk', 'st', 'ga', 'ga', 'ga', 'gr'))
            q = op + r.choice('UUC')
            q += '\t%d\t' + (U(t) if q[-1] == 'U' else C(t))
            if op == 'gr':
                q += '\t0\t%d' % r.randrange(4)
        cmds.append(q % 0)
        a = len(cmds) - 1
        cmds.append(work.init(1, which))
        cmds += [x % 1 for _, x in sorted(st.items(), key=lambda kv: (kv[0] * 7) % 19)]
        cmds.append(q % 1)
        pairs.append((a, len(cmds) - 1))
        cmds.append('term\t1')
    cmds += ['rel\t0', 'term\t0'] + (['term\t2'] if other else [])
    res = o.run(cmds, 'plain')
    if res is None:
        return
    hist = check.h64('\n'.join(cmds))
    for a, b in pairs:
        f = cmds[a].split('\t')
        o.case((hist, a) if a > 1 else None)
        o.stat('compared ' + f[0])
        if res[a] != res[b]:
            arg = drv.unU(f[2]) if f[0].endswith('U') else drv.unC(f[2])
            o.violation('history:' + f[0][:2], '%s %r: used handle %s, fresh handle %s' % (f[0], arg, res[a][:300], res[b][:300]),
                        {'commands': [c for c in cmds[:a + 1] if c.split('\t')[1:2] != ['1']], 'fresh': cmds[a + 1:b + 1], 'used answer': res[a], 'fresh answer': res[b]})
            break
    if pairs:
        a, b = pairs[-1]
        o.sample({'query': cmds[a][:200], 'preceded by': a - 1, 'answer of both': res[a][:200]})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(history, c.n(240, 10000), 220)
    c.need = 5000


check.main('C03', RULE, body, assumptions=['the cache-size option is among the options; C20 compares different sizes'])
