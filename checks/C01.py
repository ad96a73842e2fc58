"""C01: no input makes the library touch memory it does not own, execute undefined behaviour, or crash."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work
from drv import U, C, OPT

RULE = ('seeded command streams over the whole C API (queries with ordinary, mutated and hostile words and texts, option changes, '
        'initialisation and termination, results held and read again later), a grid of boundary lengths x fillings x calls, every prefix '
        'of real texts, and the deprecated interface, under AddressSanitizer + UndefinedBehaviorSanitizer with checked wide-string '
        'functions; a slice of it under valgrind memcheck for uninitialised values. A case is one API command; non-trivial when its '
        '(operation, argument) was not seen before and the library returned something else than an empty refusal')


def account(o, cmds, res):
    if res is None:
        return
    for c, r in zip(cmds, res):
        op = c.split('\t')[0]
        o.stat('op ' + op)
        o.case((c if r not in ('N', '??') else None))
        if op == 'rel' and not r.endswith(':0'):
            o.violation('held-result-changed', 'a result changed while other calls were made: ' + r, {'command': c, 'result': r})
        if r == '??':
            raise Exception('driver does not know ' + c)
    o.sample({'commands': [c[:200] for c in cmds[-6:-1]], 'answers': [r[:200] for r in res[-6:-1]]})


def stream(r, n, which):
    cmds = [work.init(0, which)]
    second = False
    for _ in range(n):
        k = r.random()
        if k < 0.07:
            cmds.append(work.option(r, 0))
        elif k < 0.09:
            cmds.append(work.misc(r, 0))
        elif k < 0.095:
            cmds.append('rel\t0')
            cmds.append('term\t0')
            cmds.append(work.init(0, which))
        elif k < 0.10:
            if second:
                cmds.append('term\t1')
            else:
                cmds.append(work.init(1, r.choice(('full', 'svfst') + work.MORE)))
            second = not second
        else:
            cmds.append(work.query(r, 1 if second and r.random() < 0.3 else 0))
    cmds += ['rel\t0', 'term\t0'] + (['term\t1'] if second else [])
    return cmds


def fuzz(o, i, n):
    cmds = stream(o.rng, n, work.pick(i, 6))
    account(o, cmds, o.run(cmds, 'asan', timeout=400))


def grid(o, i, parts):
    ws = [w for k, w in enumerate(work.grid_words()) if k % parts == i]
    cmds = [work.init(0)]
    if i % 2:
        cmds += ['bo\t0\t11\t1', 'bo\t0\t12\t1', 'bo\t0\t0\t1']
    for w in ws:
        for op in ('sp', 'hy', 'an', 'sg'):
            cmds.append('%sU\t0\t%s' % (op, U(w)))
            cmds.append('%sC\t0\t%s' % (op, C(w)))
        cmds.append('ih\t0\t%s\t%s\t1' % (C(w), C('-')))
        for t in (w, w + ' ', 'A ' + w, w + '. ' + w):
            for op in ('tk', 'st', 'ga'):
                cmds.append('%sU\t0\t%s' % (op, U(t)))
        cmds.append('gaC\t0\t%s' % C(w))
        cmds.append('tkC\t0\t%s' % C(w))
    cmds.append('term\t0')
    account(o, cmds, o.run(cmds, 'asan', timeout=400))


def prefixes(o, i, n):
    """every prefix of a text, without terminator"""
    cmds = [work.init(0)]
    for _ in range(n):
        t = gen.text(o.rng)[:120]
        for k in range(len(t) + 1):
            p = t[:k]
            cmds.append(o.rng.choice(('tkU', 'tkX', 'stU', 'gaU')) + '\t0\t' + U(p))
            if k % 3 == 0:
                cmds.append(o.rng.choice(('tkC', 'stC', 'gaC')) + '\t0\t' + C(p.encode()))
    cmds.append('term\t0')
    account(o, cmds, o.run(cmds, 'asan', timeout=400))


def deprecated(o, i, n):
    r = o.rng
    d = build.dict_full()
    cmds = ['otermraw\t%d' % r.choice((-1, 0, 1, 7)),
            'oinit\t1\t%s\t%d\t%s' % (OPT('full'), r.choice((0, 0, 3, -1)), OPT(d)),
            'otermraw\t77', 'otermraw\t-3', 'oinit\t2\t%s\t0\t%s' % (OPT('xx'), OPT(d))]
    two = r.random() < 0.5
    if two:
        cmds.append('oinit\t3\t%s\t0\t%s' % (OPT(r.choice(('fi_FI', 'standard', 'default', ''))), OPT(d)))
    for _ in range(n):
        k = r.random()
        if k < 0.08:
            cmds.append('obo\t1\t%d\t%d' % (r.choice(gen.BOOL_OPTS), r.randrange(2)))
        elif k < 0.1:
            cmds.append('oio\t1\t%d\t%d' % (r.choice((5, 9, 9, 99)), r.randrange(-1, 8)))
        elif k < 0.12:
            cmds.append('oso\t1\t%d\t%s' % (r.choice((2, 2, 7)), OPT(r.choice(('UTF-8', 'ISO-8859-1', '', None)))))
        elif k < 0.6:
            w = work.nz(gen.word(r))
            op = r.choice(('sp', 'sg', 'hy', 'an'))
            if r.random() < 0.5:
                cmds.append('o%sU\t1\t%s' % (op, U(w)))
            else:
                cmds.append('o%sC\t1\t%s' % (op, C(gen.bad_utf8(r, w) if r.random() < 0.2 else w)))
        else:
            t = gen.text(r)
            op = r.choice(('otkU', 'otk1C', 'ost1U', 'ost1C', 'ogaU', 'ogaC'))
            cmds.append('%s\t1\t%s' % (op, U(t) if op[-1] == 'U' else C(gen.bad_utf8(r, t) if r.random() < 0.2 else t)))
    cmds += ['oterm\t1', 'oterm\t1'] + (['oterm\t3'] if two else []) + ['otermraw\t1', 'otermraw\t-1']
    account(o, cmds, o.run(cmds, 'asan', timeout=400))


def uninit(o, i, n):
    """uninitialised values: memcheck on the uninstrumented library"""
    cmds = stream(o.rng, n, work.pick(i, 4))
    try:
        res = drv.run(cmds, 'plain', timeout=500, prefix=('valgrind', '-q', '--error-exitcode=98', '--leak-check=no',
                                                         '--exit-on-first-error=yes', '--suppressions=' + build.HARNESS + '/valgrind.supp'))
    except drv.Crash as x:
        m = re.search(r'==\d+== (Conditional|Use of|Syscall|Invalid|Mismatched|Invalid).*', x.report)
        fr = [f for f in re.findall(r'(?:at|by) 0x[0-9A-F]+: (.+?) \((?:in |)([\w.]+)', x.report) if not f[1].startswith('vg') and f[1] != 'drv.cpp']
        o.violation('memcheck:' + (m.group(1) if m else 'crash') + '|' + '<'.join(re.sub(r'\(.*', '', a).split('::')[-1] for a, _ in fr[:2]),
                    'memcheck: %s in %s' % (x.report[:900], x.cmd[:300]),
                    {'commands': check.context(cmds, x.index), 'report': x.report[:5000]})
        return
    for c, r in zip(cmds, res):
        o.stat('memcheck commands')
        o.case('mc' + c if r != 'N' else None)


def body(c):
    drv.build.harness('asan', 'drv')
    drv.build.harness('plain', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(grid, 16, 16)
    c.shards(fuzz, c.n(48, 1600), 1500)
    c.shards(prefixes, c.n(16, 160), 8)
    c.shards(deprecated, c.n(8, 80), 700)
    c.shards(uninit, c.n(8, 48), c.n(160, 400))
    c.need = 10000


check.main('C01', RULE, body, assumptions=[
    'code points are 1..0x10FFFF; handles are valid; dictionaries are ones the library agreed to open and whose content is well-formed',
    'red-zone based detection: an access that lands in other live memory is not seen'])
