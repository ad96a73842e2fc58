"""C02: everything the library acquires is released again."""
import os, shutil, struct, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, work, words
from drv import U, C, OPT

RULE = ('a seeded body (initialise a good or a broken dictionary, queries with ordinary, hostile and malformed input, option changes, '
        're-initialisation, terminate) is run four times in one process; monitors after each round: LeakSanitizer reachability, live heap '
        'bytes of the allocator, mapped dictionary files and open descriptors, which must come back to the same values. A second workload '
        'repeats one body many times without terminating and watches the live heap for growth. A third makes many different queries once each and looks for unreachable memory at the end. A case is one round; '
        'non-trivial when the round made at least one query or failed open')
ENV = {'ASAN_OPTIONS': drv.ASAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')}


def parse(r):
    return dict((k, int(v)) for k, v in (x.split('=') for x in r.split(' ')))


def bodycmds(r, n, h=0):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.15:
            out.append(work.option(r, h))
        elif k < 0.2:
            out.append(work.misc(r, h))
        else:
            out.append(work.query(r, h, utf8=0.5, bad=0.3))
    return out + ['rel\t%d' % h]


def faults(r, d):
    """a dictionary directory broken somehow; returns the language to ask for"""
    src = build.dict_full() + '/5/mor-full'
    k = r.randrange(17)
    if k >= 13:
        # the weighted dictionary, with one of its files damaged
        shutil.copytree(build.dict_svfst() + '/5', d + '/5')
        f = d + '/5/' + os.listdir(d + '/5')[0] + '/' + r.choice(('mor.vfst', 'spl.vfst', 'err.vfst'))
        data = open(f, 'rb').read()
        os.remove(f)
        bad = r.choice((None, b'', b'q' * 40, data[:8] + b'\0' + data[9:], data[:4]))
        if bad is not None:
            with open(f, 'wb') as fh:
                fh.write(bad)
        return ['init\t0\t%s\t%s' % (OPT('fi-x-svfst'), OPT(d))], k
    m = d + '/5/mor-x'
    extra = 'Morphology-Backend: finnishVfst\n'
    fmt = None
    if k == 0:
        extra = 'Morphology-Backend: nosuch\n'
    elif k == 1:
        extra += 'Speller-Backend: nosuch\n'
    elif k == 2:
        extra += 'Hyphenator-Backend: nosuch\n'
    elif k == 3:
        extra += 'Suggestion-Backend: nosuch\n'
    elif k == 4:
        extra += 'Grammar-Backend: nosuch\n'
    elif k == 5:
        extra = 'Morphology-Backend: vfst\n'
    elif k == 6:
        extra += 'Speller-Backend: vfst\n'
    elif k == 12:
        extra += 'Suggestion-Backend: vfst\n'
    build.write_index(m, 'fi-x-x', 'x', extra)
    mor = open(src + '/mor.vfst', 'rb').read(4096)
    if k == 7:
        pass
    elif k == 8:
        open(m + '/mor.vfst', 'wb').close()
    elif k == 9:
        open(m + '/mor.vfst', 'wb').write(b'x' * 100)
    elif k == 10:   # weighted header: wrong kind
        open(m + '/mor.vfst', 'wb').write(mor[:8] + b'\1' + mor[9:])
    else:
        os.symlink(src + '/mor.vfst', m + '/mor.vfst')
        if k == 11:
            open(m + '/autocorr.vfst', 'wb').write(r.choice((b'', b'abc', b'z' * 64, mor[:8] + b'\1' + b'\0' * 60)))
        if r.random() < 0.5:
            for f in ('spl.vfst', 'err.vfst'):
                open(m + '/' + f, 'wb').write(r.choice((b'', b'z' * 64, mor)))
    return ['init\t0\t%s\t%s' % (OPT('fi-x-x'), OPT(d))], k


def rounds(o, i, n):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c02')
    try:
        body, broken = [], None
        if i % 3 == 2:
            cmds, broken = faults(r, tmp)
            body += cmds + ['term\t0'] + cmds
            # the broken one may open after all (an optional part is ignored): terminate whatever it gave
            body += ['term\t0']
        which = work.pick(i, 5)
        body.append(work.init(0, which))
        body += bodycmds(r, n)
        if r.random() < 0.4:
            body.append(work.init(1, 'full'))
            body += bodycmds(r, 6, 1) + bodycmds(r, 4, 0)
            body.append('term\t1')
        body.append('term\t0')
        if r.random() < 0.3:
            body += ['oinit\t1\t%s\t0\t%s' % (OPT(r.choice(('full', 'nosuch', ''))), OPT(build.dict_full())), 'oterm\t1']
        if r.random() < 0.4:
            body += ['%s\t%s' % (r.choice(('ld', 'ls', 'lh', 'lg')), OPT(r.choice((tmp, build.dict_full(), None))))]
        cmds = []
        for _ in range(4):
            cmds += body + ['leak', 'res']
        res = o.run(cmds, 'asan', env=ENV, timeout=400)
        if res is None:
            return
        L = len(body) + 2
        ans = [res[k * L:(k + 1) * L] for k in range(4)]
        leaks = [a[-2] for a in ans]
        st = [parse(a[-1]) for a in ans]
        o.case(('rounds', body), 4)
        o.stat('rounds', 4)
        if broken is not None:
            o.stat('failed opens' if ans[0][0].startswith('E') else 'broken opens accepted')
        o.stat('queries', len(body) * 4)
        o.sample({'body': [c[:120] for c in body[:5]], 'after each round': [a[-1] for a in ans]})
        w = {'body': body, 'states': [a[-2:] for a in ans], 'fault': broken}
        if any(x != '0' for x in leaks):
            o.violation('leak', 'memory that is no longer reachable remains after releasing everything: %s; body starts %s' % (leaks, [c[:80] for c in body[:3]]), w)
        for key in ('vfst', 'fds'):
            v = [s[key] for s in st]
            if v[1] != v[-1] or (key == 'vfst' and v[-1] != 0):
                o.violation('remains-' + key, '%s still held after each round: %s' % (key, v), w)
        hp = [s['heap'] for s in st]
        if hp[1] < hp[2] < hp[3]:
            o.violation('heap-grows', 'live heap after each round: %s' % hp, w)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def steady(o, i, n):
    """the same work again and again through one living handle"""
    r = o.rng
    body = bodycmds(r, n)
    # options return to their defaults at the end of each round
    body += ['bo\t0\t%d\t%d' % (k, v) for k, v in gen.BOOL_DEFAULT.items()]
    cmds = [work.init(0, work.pick(i, 4))]
    for _ in range(8):
        cmds += body + ['res']
    cmds += ['term\t0', 'leak']
    res = o.run(cmds, 'asan', env=ENV, timeout=400)
    if res is None:
        return
    L = len(body) + 1
    st = [parse(res[1 + (k + 1) * L - 1]) for k in range(8)]
    hp = [s['heap'] for s in st]
    o.case(('steady', body), 8)
    o.stat('steady rounds', 8)
    w = {'body': body, 'states': st}
    if all(a < b for a, b in zip(hp[2:], hp[3:])):
        o.violation('steady-heap-grows', 'live heap after each repetition: %s' % hp, w)
    if st[2]['fds'] < st[-1]['fds'] or st[2]['vfst'] < st[-1]['vfst']:
        o.violation('steady-files-grow', 'descriptors or mappings after each repetition: %s' % st, w)
    if res[-1] != '0':
        o.violation('leak', 'unreachable memory at the end', w)


def sweep(o, i, n):
    """many different queries, each once; nothing may remain unreachable"""
    r = o.rng
    cmds = [work.init(0, work.pick(i, 4))]
    for _ in range(n):
        k = r.random()
        if k < 0.05:
            cmds.append(work.option(r, 0))
        elif k < 0.55:
            w = gen.special_word(r) if k < 0.2 else words.tag_compound(r) if k < 0.3 else words.word(r)
            w = w.replace('\0', '')
            op = r.choice(('sp', 'sp', 'hy', 'an', 'sg')) if k < 0.5 else 'sp'
            cmds.append('%sU\t0\t%s' % (op, U(w)) if r.random() < 0.6 else '%sC\t0\t%s' % (op, C(w)))
        else:
            cmds.append(work.query(r, 0, utf8=0.5, bad=0.2))
    cmds += ['rel\t0', 'term\t0', 'leak', 'res']
    res = o.run(cmds, 'asan', env=ENV, timeout=600)
    if res is None:
        return
    o.case(('sweep', i, r.random()), 1)
    o.stat('queries, each once', n)
    if res[-2] != '0':
        o.violation('leak', 'memory that is no longer reachable remains after releasing everything', {'body': cmds})
    if parse(res[-1])['vfst']:
        o.violation('remains-vfst', 'dictionary files are still mapped at the end', {'body': cmds})


def body(c):
    build.harness('asan', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    words.lex()
    c.shards(rounds, c.n(240, 6000), 90)
    c.shards(steady, c.n(64, 1000), 40)
    c.shards(sweep, c.n(64, 2000), 700)
    c.need = 100


check.main('C02', RULE, body, assumptions=['memory kept for reuse by a living handle (caches) may grow to a bound; only growth over every repetition counts'])
