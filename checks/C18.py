"""C18: unusable dictionaries are refused with an error and no side effects."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, gen, vfst
from drv import U, C, OPT

RULE = ('a location with good dictionaries (Finnish, weighted, byte-swapped) and dictionaries with one fault each: a data file missing, empty, a directory, dangling, cut within '
        'the header, of foreign type, with a damaged cookie or of the wrong kind; an unknown or unsuitable back end for each role; an index that is missing or of another format; '
        'and, in the plain build, a mapping or a descriptor that the system refuses at any point of opening. Seeded sequences open, query and terminate good and bad ones in both interfaces. '
        'Monitors: refusal with a message and no handle, success without one, mapped files, descriptors and live heap after a refusal as before, LeakSanitizer, and the same answers '
        'from open handles and from newly opened good dictionaries throughout. A case is one refused open; distinct by fault and sequence position')
ENV = {'ASAN_OPTIONS': drv.ASAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')}
FIN = 'Morphology-Backend: finnishVfst\n'
WEI = 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n'
ROLES = {'Morphology': ('nosuch', '', 'Null', 'finnishVfst ', 'finnishvfst', 'malaga', 'hfst', 'lttoolbox', 'vfst2'),
         'Speller': ('nosuch', '', 'vfstx', 'AnalyzerToSpellerAdapter', 'AllOK', 'FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer))', 'hfst', 'null'),
         'Suggestion': ('nosuch', '', 'NULL', 'FinnishSuggestionStrategy', 'hfst', 'AllOk'),
         'Hyphenator': ('nosuch', '', 'null', 'AnalyzerToFinnishHyphenatorAdapter', 'hfst', 'vfst'),
         'Grammar': ('nosuch', '', 'vfst', 'Finnish', 'finnishvfst', 'vislcg3')}
PROBE_W = ['koira', 'kissa', 'kissoja', 'koirra', 'talo', 'kuusi', 'Helsinki', 'abc', 'kissakoira', 'qwerty', 'ja', 'ole', 'eio']
PROBE_T = ['Koira koira juoksee. minä olen', 'Ei ole joten kuten', 'abc  def , xx']


def damaged(r, data, weighted):
    """content of a data file that must be refused, and what is wrong"""
    k = r.randrange(7)
    if k == 0:
        return b'', 'empty'
    if k == 1:
        n = r.choice((1, 4, 7, 8, 9, 12, 15, 16, 17, 16, 17))
        return data[:n], 'cut to %d bytes' % n
    if k == 2:
        return r.choice((b'#!/bin/sh\necho vfst >/dev/null\n', b'\0' * 4096, b'z' * 18, bytes(r.randrange(2, 250) for _ in range(300)))), 'foreign content'
    if k == 3:
        i = r.randrange(8)
        b = bytearray(data[:5000])
        b[i] ^= 1 << r.randrange(8)
        return bytes(b), 'cookie damaged at byte %d' % i
    if k == 4:
        # half native, half reversed cookie
        d = data[:5000]
        return (d[:4][::-1] + d[4:]) if r.random() < 0.5 else (d[:4] + d[4:8][::-1] + d[8:]), 'cookie mixed'
    b = bytearray(data[:200000])
    b[8] = 0 if weighted else 1
    if k == 6:
        # the same in the other byte order
        b = bytearray(b[:4][::-1] + b[4:8][::-1] + b[8:])
    return bytes(b), 'wrong kind' + (' (other byte order)' if k == 6 else '')


def put(src, d):
    os.makedirs(d)
    for f in os.listdir(src):
        if f.endswith('.vfst'):
            os.symlink(src + '/' + f, d + '/' + f)


def bad_dict(r, d, tag):
    """writes a dictionary with one fault; returns its description"""
    weighted = r.random() < 0.4
    src = build.dict_svfst() + '/5/mor-svfst' if weighted else build.dict_full() + '/5/mor-full'
    text = WEI if weighted else FIN
    put(src, d)
    k = r.random()
    what = None
    if k < 0.55:
        f = r.choice(('mor.vfst', 'spl.vfst', 'err.vfst') if weighted else ('mor.vfst', 'autocorr.vfst'))
        with open(src + '/' + f, 'rb') as fh:
            data = fh.read(200000)
        os.remove(d + '/' + f)
        m = r.randrange(8)
        if m == 0:
            what = 'missing'
        elif m == 1:
            os.makedirs(d + '/' + f)
            what = 'a directory'
        elif m == 2:
            os.symlink(d + '/nowhere', d + '/' + f)
            what = 'dangling'
        else:
            b, what = damaged(r, data, weighted)
            with open(d + '/' + f, 'wb') as fh:
                fh.write(b)
        what = f + ' ' + what
    elif k < 0.85:
        role = r.choice(list(ROLES))
        name = r.choice(ROLES[role])
        lines = [x for x in text.splitlines() if not x.startswith(role)]
        lines.insert(r.randrange(len(lines) + 1), '%s-Backend: %s' % (role, name))
        text = '\n'.join(lines) + '\n'
        what = '%s back end %r' % (role, name)
    elif k < 0.9:
        text = WEI.replace('Speller-Backend: vfst', 'Speller-Backend: ' + r.choice(('AllOk', 'AllError')))
        if not weighted:
            text = FIN + 'Suggestion-Backend: vfst\n'
        what = 'suggestions by transducer without such a speller'
    else:
        what = r.choice(('no index', 'index is a directory', 'format 4', 'format 6', 'empty index', 'no format line'))
        if what == 'index is a directory':
            os.makedirs(d + '/index.txt')
        elif what != 'no index':
            build.write_index(d, tag, 'bad', text)
            t = open(d + '/index.txt').read()
            head, _, rest = t.partition('\n')
            t = {'format 4': head[:-1] + '4\n' + rest, 'format 6': head[:-1] + '6\n' + rest, 'empty index': '', 'no format line': rest}[what]
            with open(d + '/index.txt', 'w') as f:
                f.write(t)
        return what
    build.write_index(d, tag, 'bad', text)
    return ('weighted: ' if weighted else 'finnish: ') + what


def probe(h):
    return (['spM\t%d\t%s' % (h, ' '.join(U(w) for w in PROBE_W))] + ['sgU\t%d\t%s' % (h, U(w)) for w in ('koirra', 'eio', 'kiska')] +
            ['hyU\t%d\t%s' % (h, U(w)) for w in ('kissakoira', 'kissoja')] + ['anU\t%d\t%s' % (h, U(w)) for w in ('koira', 'kissoja', 'kuusi')] +
            ['gaU\t%d\t%s' % (h, U(t)) for t in PROBE_T] + ['tkU\t%d\t%s' % (h, U(PROBE_T[0]))])


def parse(r):
    return dict((k, int(v)) for k, v in (x.split('=') for x in r.split(' ')))


def seq(o, idx, n, variant):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c18')
    try:
        loc = tmp + '/loc'
        goods = {}
        for g in ('fin', 'wei', 'swp'):
            d = loc + '/5/mor-' + r.choice('az') + g
            put({'fin': build.dict_full() + '/5/mor-full', 'wei': build.dict_svfst() + '/5/mor-svfst', 'swp': build.dict_more() + '/5/mor-swap'}[g], d)
            build.write_index(d, 'fi-x-' + g, g, WEI if g == 'wei' else FIN)
        bads = {}
        for k in range(8):
            bads['fi-x-bad%d' % k] = bad_dict(r, loc + '/5/mor-bad%d' % k, 'fi-x-bad%d' % k)
        bads.update({'fi-x-nosuch': 'no such variant', 'sv': 'no such language', '': 'empty language', None: 'null language', 'fi-Cyrl-x-fin': 'other script'})
        P = OPT(loc)
        cmds, exp = [], []

        def add(c, e):
            cmds.append(c)
            exp.append(e)

        def openit(h, tag, e):
            add('init\t%d\t%s\t%s' % (h, OPT(tag), P), e)

        def doprobe(h, g):
            for c in probe(h):
                add(c, ('probe', g, c.split('\t', 2)[0] + c.split('\t', 2)[-1]))
        # two long-lived handles
        goodtag = ['fin', 'wei', 'swp'] if variant == 'plain' or r.random() < 0.3 else ['fin', 'wei']
        live = [(1, r.choice(goodtag)), (2, r.choice(goodtag))]
        for h, g in live:
            openit(h, 'fi-x-' + g, ('good',))
            doprobe(h, g)
        for _ in range(n):
            tag = r.choice(list(bads))
            old = tag is not None and r.random() < 0.2
            if old:
                # the old interface: "fi_FI" style language code, or the variant alone
                one = lambda: add('oinit\t3\t%s\t0\t%s' % (OPT(tag), P), ('bad', tag))
            else:
                one = lambda: openit(0, tag, ('bad', tag))
            one()
            add('res', ('res0',))
            one()
            add('res', ('res1', tag))
            if r.random() < 0.5:
                h, g = r.choice(live)
                doprobe(h, g)
            if r.random() < 0.3:
                g = r.choice(goodtag)
                openit(0, 'fi-x-' + g, ('good',))
                doprobe(0, g)
                add('term\t0', ('any',))
            if r.random() < 0.15:
                h, g = live.pop(r.randrange(2))
                add('term\t%d' % h, ('any',))
                g = r.choice(goodtag)
                openit(h, 'fi-x-' + g, ('good',))
                doprobe(h, g)
                live.append((h, g))
            if r.random() < 0.1:
                add('%s\t%s' % (r.choice(('ld', 'ls', 'lh', 'lg')), P), ('any',))
        for h, g in live:
            add('term\t%d' % h, ('any',))
        add('leak', ('leak',))
        add('res', ('end',))
        res = o.run(cmds, variant, env=ENV if variant == 'asan' else None, timeout=400)
        if res is None:
            return
        judge(o, r, cmds, exp, res, bads, variant, {'location': bads})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(o, r, cmds, exp, res, bads, variant, w):
    seen, before = {}, None
    for i, (c, e, x) in enumerate(zip(cmds, exp, res)):
        k = e[0]
        wit = dict(w, commands=[y[:200] for y in cmds[max(0, i - 4):i + 1]], answer=x)
        if k == 'good':
            o.stat('good dictionaries opened')
            if x != 'OK':
                o.violation('good-refused', 'a good dictionary is not opened cleanly (%s): %s' % (x, c[:100]), wit)
        elif k == 'bad':
            o.case((bads[e[1]], i, tuple(sorted(map(str, bads.values())))))
            o.stat('refusals: ' + bads[e[1]].split(' ')[0].rstrip(':') + ' ' + ('file' if '.vfst' in bads[e[1]] else 'other'))
            if not x.startswith('E ') or x == 'E N' or not drv.unC(x[2:]):
                o.violation('accepted:' + bads[e[1]], 'a dictionary with a fault (%s) is not refused with a message: %s' % (bads[e[1]], x), wit)
        elif k == 'probe':
            o.stat('probes')
            if e[1:] in seen and seen[e[1:]] != x:
                o.violation('probe-changed', 'a good dictionary (%s) answers %s, earlier %s, to %s' % (e[1], x[:200], seen[e[1:]][:200], c[:100]), wit)
            seen.setdefault(e[1:], x)
        elif k == 'res0':
            before = parse(x)
        elif k == 'res1':
            a = parse(x)
            o.stat('resource comparisons')
            for key in ('vfst', 'fds') + (('heap',) if variant == 'asan' else ()):
                if a[key] != before[key]:
                    o.violation('remains-' + key, 'a refused open (%s) left %s: %d before, %d after' % (bads[e[1]], key, before[key], a[key]), wit)
        elif k == 'leak':
            if x != '0':
                o.violation('leak', 'unreachable memory remains after refused opens', wit)
        elif k == 'end':
            if parse(x)['vfst'] != 0:
                o.violation('remains-vfst', 'mapped dictionary files at the end: ' + x, wit)
    o.sample({'faults': [str(b) for b in bads.values()][:8], 'first answers': res[:3]})


def faults(o, idx, n):
    """the system refuses a mapping or a descriptor while a good dictionary is opened"""
    r = o.rng
    loc = {'fin': (build.dict_full(), 'fi-x-full', 2), 'wei': (build.dict_svfst(), 'fi-x-svfst', 3), 'nospell': (build.dict_more(), 'fi-x-nospell', 3), 'swp': (build.dict_more(), 'fi-x-swap', 2),
           'err': (build.dict_more(), 'fi-x-err', 2)}
    cmds, exp, bads = [], [], {}
    keep = r.choice(list(loc))
    op = lambda h, g: 'init\t%d\t%s\t%s' % (h, OPT(loc[g][1]), OPT(loc[g][0]))

    def add(c, e):
        cmds.append(c)
        exp.append(e)

    def doprobe(h, g):
        for c in probe(h):
            add(c, ('probe', g, c.split('\t', 2)[0] + c.split('\t', 2)[-1]))
    add(op(1, keep), ('good',))
    doprobe(1, keep)
    for _ in range(n):
        g = r.choice(list(loc))
        if r.random() < 0.5:
            # the k-th mapping fails
            k = r.randrange(1, loc[g][2] + 1)
            bads[g, k] = '%s: mapping %d fails' % (g, k)
            add('failmap\t%d' % k, ('any',))
            add(op(0, g), ('bad', (g, k)))
            add('failmap\t0', ('any',))
            add('res', ('res0',))
            add('failmap\t%d' % k, ('any',))
            add(op(0, g), ('bad', (g, k)))
            add('failmap\t0', ('any',))
            add('res', ('res1', (g, k)))
        else:
            k = 0
            bads[g, 'fd'] = '%s: no descriptor' % g
            add('fdlimit\t0', ('any',))
            add(op(0, g), ('bad', (g, 'fd')))
            add('fdlimit\t-1', ('any',))
            add('res', ('res0',))
            add('fdlimit\t0', ('any',))
            add(op(0, g), ('bad', (g, 'fd')))
            add('fdlimit\t-1', ('any',))
            add('res', ('res1', (g, 'fd')))
        if r.random() < 0.5:
            doprobe(1, keep)
        add(op(0, g), ('good',))
        doprobe(0, g)
        add('term\t0', ('any',))
    add('term\t1', ('any',))
    add('res', ('end',))
    res = o.run(cmds, 'plain', timeout=400)
    if res is not None:
        o.stat('system faults injected', sum(c.startswith(('failmap', 'fdlimit')) and not c.endswith(('failmap\t0', '-1')) for c in cmds))
        judge(o, r, cmds, exp, res, bads, 'plain', {})


def body(c):
    build.harness('plain', 'drv')
    build.harness('asan', 'drv')
    build.dict_full(), build.dict_svfst(), build.dict_more()
    c.shards(seq, c.n(240, 3000), 24, 'plain')
    c.shards(seq, c.n(64, 1600), 16, 'asan')
    c.shards(faults, c.n(64, 800), 12)
    c.need = 1000


check.main('C18', RULE, body, assumptions=['a data file damaged only after its header is outside the contract (the library trusts the rest of a dictionary)'])
