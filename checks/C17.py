"""C17: compiled transducers mean what their source says."""
import collections, math, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, morph, vfst
from drv import U, C, OPT

RULE = ('seeded random transducers (empty transitions, flag diacritics of every kind, loops, ambiguity, tags, multi-character outputs, several scripts, states with up to '
        '700 transitions, weights of both kinds) compiled with voikkovfstc in both byte orders and used as the analyser, the speller and the error model of a dictionary; '
        'monitor: the multiset of outputs and weights, the verdicts and the suggestions for words of the language, near words and random words equal those of an independent '
        'interpreter of the text form. Malformed descriptions and options must be refused with an error status. A case is one (transducer, byte order, word) lookup; '
        'non-trivial when the reference finds an output; distinct by transducer and word')
SCRIPTS = ['abcdefghijklmnopqrstuvwxyz', 'aäoöåšž', 'абвгдежзиклмноп', 'αβγδεζηθικλμ', 'アイウエオカキク', ''.join(chr(0x4e00 + 7 * k) for k in range(900)),
           '\U00010330\U00010331\U00010332\U00010333', '0123456789', 'a1-.', 'אבגדה']
TAGS = ['[Sn]', '[Sg]', '[Sp]', '[Ny]', '[Nm]', '[Xr]', '[Q]', '[x]']


def weight(r, kind, neg):
    if kind == 'prob':
        return r.choice((1.0, 0.5, 0.25, round(r.uniform(0.001, 1), 4), round(r.uniform(0.2, 1), 3), 1.5 if neg else 0.9))
    return r.choice((0.0, 0.001, 0.128, 0.255, 0.256, round(r.uniform(0, 1.5), 3), -round(r.uniform(0, 0.7), 3) if neg else 0.3))


def wint(kind, w):
    return int(-math.log(w) * 100.0) if kind == 'prob' else int(w * 1000.0)


def flag(r, feats):
    op = r.choice('PCUURRDD')
    f = r.choice(feats)
    if op == 'C' or (op in 'RD' and r.random() < 0.35):
        return '@%s.%s@' % (op, f)
    return '@%s.%s.%s@' % (op, f, r.choice('XYZ'))


class Net:
    """a random transducer: lines[state] = list of (in, out, target, weight text) or (None, None, None, weight text)"""

    def __init__(self, r, kind, form='free', neg=False):
        self.kind = kind
        wide = form == 'free' and r.random() < 0.25
        alpha = r.choice(SCRIPTS)
        if r.random() < 0.3:
            alpha += r.choice(SCRIPTS[:4])
        if wide:
            alpha = SCRIPTS[5] + r.choice(SCRIPTS[:4])
        alpha = ''.join(sorted(set(alpha)))
        small = ''.join(r.choice(alpha) for _ in range(r.choice((2, 2, 3, 5))))
        self.alpha, self.small = alpha, small
        n = r.choice((1, 2, 3, 4, 6, 8, 12, 20))
        if form == 'finnish':
            n += 1
        feats = r.choice((None, ['F'], ['F', 'GG'], ['F', 'G', 'H']))
        W = (lambda: weight(r, kind, neg)) if kind else (lambda: None)
        self.st = [[] for _ in range(n)]

        def out(i):
            if form == 'finnish':
                return i if r.random() < 0.8 else r.choice(small)
            k = r.random()
            return i if k < 0.55 else r.choice(small) if k < 0.7 else '@0@' if k < 0.8 else r.choice(TAGS) if k < 0.9 else r.choice(('abc', 'xyz\u4e00', '\U0001f642', '@_SPACE_@'))
        first = 0
        if form == 'finnish':
            for _ in range(r.choice((1, 1, 2))):
                self.st[0].append(('@0@', r.choice(('[Ln]', '[Ll]', '[Lt]', '[Ls]')), 1, None))
            first = 1
        for s in range(first, n):
            for _ in range(r.choice((0, 1, 1, 2, 2, 3, 5))):
                c = r.choice(small)
                self.st[s].append((c, out(c), r.randrange(first, n), W()))
            if s + 1 < n:
                for _ in range(r.choice((0, 0, 1, 1, 2))):
                    o = r.choice(('@0@', '@0@', r.choice(TAGS[:5]))) if form == 'finnish' else r.choice(('@0@', r.choice(small), r.choice(TAGS)))
                    self.st[s].append(('@0@', o, r.randrange(s + 1, n), W()))
                if feats:
                    for _ in range(r.choice((0, 1, 2, 2, 4))):
                        f = flag(r, feats)
                        self.st[s].append((f, r.choice((f, f, '@0@')), r.randrange(s + 1, n), W()))
            if r.random() < 0.15:
                self.st[s].append((r.choice(TAGS), '@0@', r.randrange(first, n), W()))      # can never be read
            if r.random() < 0.4 or s == n - 1:
                for _ in range(1 if r.random() < 0.9 else 2):
                    self.st[s].append((None, None, None, W() if r.random() < 0.8 else None))
        if wide:
            for s in r.sample(range(first, n), min(n - first, r.choice((1, 1, 2)))):
                k = r.choice((200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700)) - len(self.st[s])
                for c in r.sample(alpha, max(0, min(len(alpha), k))):
                    self.st[s].append((c, c, r.randrange(first, n), W()))
        for s in range(first, n):
            if not self.st[s]:
                self.st[s].append((None, None, None, W()))
            r.shuffle(self.st[s])
        # a transducer needs at least one plain symbol
        if not any(t[0] and len(t[0]) == 1 for s in self.st for t in s):
            self.st[n - 1].append((small[0], small[0], n - 1, W()))

    def att(self):
        out = []
        for s, ts in enumerate(self.st):
            for i, o, t, w in ts:
                f = [s] if i is None else [s, t, i, o]
                if w is not None:
                    f.append(repr(w))
                out.append('\t'.join(str(x) for x in f))
        return '\n'.join(out) + '\n'

    def fst(self):
        conv = lambda x: '' if x == '@0@' else ' ' if x == '@_SPACE_@' else x
        st = []
        for ts in self.st:
            st.append([(None, None, None, 0 if w is None else wint(self.kind, w)) if i is None else
                       (conv(i), conv(o), t, 0 if w is None else wint(self.kind, w)) for i, o, t, w in ts])
        f = vfst.Fst(st)
        return f


def words(r, net, f, n):
    out = ['', net.small[0]]
    for _ in range(n):
        k = r.random()
        w = f.walk(r, r.choice((3, 6, 12, 30)), 6) if k < 0.6 else None
        if w is None:
            w = ''.join(r.choice(net.small if r.random() < 0.8 else net.alpha) for _ in range(r.choice((1, 2, 3, 4, 6, 9))))
        if r.random() < 0.25 and w:
            p = r.randrange(len(w))
            w = w[:p] + r.choice((r.choice(net.small), '', r.choice(net.alpha), 'q', '\u1234')) + w[p + r.randrange(2):]
        w = ''.join(c for c in w if len(c) == 1 and c != ' ')
        if len(w) < 200 and '[' not in w:
            out.append(w)
    return list(dict.fromkeys(out))


def compile_(net_att, path, kind, order, variant):
    cmd = [build.tool(variant, 'voikkovfstc'), '-o', path]
    if kind:
        cmd += ['-w', kind]
    if order:
        cmd += ['-f', order]
    p = subprocess.run(cmd, input=net_att.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, **drv.ASAN_ENV), timeout=120)
    return p


def lookup(f, w):
    try:
        res = f.lookup(w, 20000)
    except OverflowError:
        return None
    if len(res) > 95 or any(len(o) > 1500 or abs(x) > 30000 for o, x in res):
        return None
    return res


def expw(w):
    return '%.9g' % math.exp(-0.01 * w)


def good(o, p, att, order, what):
    if p.returncode != 0:
        o.violation('refused', 'voikkovfstc refused a correct %s transducer (rc %d): %s' % (what, p.returncode, p.stderr.decode('utf-8', 'replace')[-300:]), {'att': att, 'order': order})
        return False
    return True


def weighted(o, idx, n, variant):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c17')
    try:
        for _ in range(n):
            kind = r.choice(('prob', 'log'))
            mor, spl = Net(r, kind, neg=True), Net(r, kind, neg=True)
            fm, fs = mor.fst(), spl.fst()
            order = r.choice(('le', 'be', 'be', 'native', None))
            d = tempfile.mkdtemp(dir=tmp)
            m = d + '/5/mor-x'
            build.write_index(m, 'fi-x-x', 'x', 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: null\nGrammar-Backend: null\n')
            if not (good(o, compile_(mor.att(), m + '/mor.vfst', kind, order, variant), mor.att(), order, 'weighted') and
                    good(o, compile_(spl.att(), m + '/spl.vfst', kind, order, variant), spl.att(), order, 'weighted')):
                continue
            o.stat('weighted transducers, byte order %s' % order, 2)
            wm = [w for w in words(r, mor, fm, 40) if w]
            ws = [w for w in words(r, spl, fs, 40) if w and not w.endswith('.')]
            cmds = ['init\t0\t%s\t%s' % (OPT('fi-x-x'), OPT(d)), 'bo\t0\t10\t0']
            cmds += ['anU\t0\t' + U(w) for w in wm] + ['spU\t0\t' + U(w) for w in ws] + ['term\t0']
            res = o.run(cmds, variant)
            if res is None:
                continue
            if res[0] != 'OK':
                o.violation('not opened', 'the compiled dictionary is refused: ' + res[0], {'mor': mor.att(), 'spl': spl.att(), 'order': order})
                continue
            for w, x in zip(wm, res[2:]):
                want = lookup(fm, w)
                if want is None:
                    o.stat('skipped: search limits')
                    continue
                got = drv.dec_analyses(x, True) or []
                got = sorted((a.get('FSTOUTPUT'), a.get('WEIGHT')) for a in got)
                exp = sorted((t, expw(v)) for t, v in want)
                o.case((mor.att(), w) if want else None)
                o.stat('weighted analyses compared', len(exp))
                if got != exp:
                    o.violation('weighted-outputs', 'analyses of %r are %s, the description gives %s (byte order %s, -w %s)' % (w, got[:6], exp[:6], order, kind),
                                {'att': mor.att(), 'word': w, 'order': order, 'kind': kind, 'got': got, 'expected': exp})
            for w, x in zip(ws, res[2 + len(wm):]):
                want = lookup(fs, w)
                if want is None:
                    continue
                o.case((spl.att(), w) if want else None)
                o.stat('weighted verdicts accepting' if want else 'weighted verdicts refusing')
                if (x == '1') != bool(want):
                    o.violation('weighted-verdict', 'spelling of %r gives %s, the description has %d paths (byte order %s)' % (w, x, len(want), order),
                                {'att': spl.att(), 'word': w, 'order': order, 'kind': kind, 'got': x})
            o.sample({'transducer': mor.att()[:200], 'word': wm[-1], 'answer': res[1 + len(wm)][:200]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def unweighted(o, idx, n, variant):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c17')
    try:
        for _ in range(n):
            net = Net(r, None, 'finnish')
            f = net.fst()
            order = r.choice(('le', 'be', 'be', 'native', None))
            d = tempfile.mkdtemp(dir=tmp)
            m = d + '/5/mor-x'
            build.write_index(m, 'fi-x-x', 'x', 'Morphology-Backend: finnishVfst\nSpeller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\nSuggestion-Backend: null\nGrammar-Backend: null\n')
            if not good(o, compile_(net.att(), m + '/mor.vfst', None, order, variant), net.att(), order, 'unweighted'):
                continue
            o.stat('unweighted transducers, byte order %s' % order)
            ws = [w for w in words(r, net, f, 50) if w]
            res = o.run(['init\t0\t%s\t%s' % (OPT('fi-x-x'), OPT(d))] + ['anU\t0\t' + U(w) for w in ws] + ['term\t0'], variant)
            if res is None:
                continue
            if res[0] != 'OK':
                o.violation('not opened', 'the compiled dictionary is refused: ' + res[0], {'att': net.att(), 'order': order})
                continue
            for w, x in zip(ws, res[1:]):
                outs = lookup(f, w)
                if outs is None:
                    o.stat('skipped: search limits')
                    continue
                try:
                    want = sorted(s for s, _ in outs if morph.is_valid(s))
                except morph.Odd:
                    continue
                got = sorted(a['FSTOUTPUT'] for a in drv.dec_analyses(x, True) or [] if 'FSTOUTPUT' in a)
                o.case((net.att(), w) if want else None)
                o.stat('unweighted analyses compared', len(want))
                if got != want:
                    o.violation('unweighted-outputs', 'outputs for %r are %s, the description gives %s (byte order %s)' % (w, got[:6], want[:6], order),
                                {'att': net.att(), 'word': w, 'order': order, 'got': got, 'expected': want})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def lexicon(r, kind):
    """an unambiguous acceptor: a trie of words, with a flag pair on some of them; and an error model over the same letters"""
    alpha = r.choice(('abcd', 'aikstu', 'бвгд', 'aäoö', 'ab\U00010330'))
    ws = set()
    while len(ws) < r.choice((3, 10, 30)):
        ws.add(''.join(r.choice(alpha) for _ in range(r.choice((2, 3, 3, 4, 5, 7)))))
    st, lines = {'': 0}, [[]]
    flags = r.random() < 0.5
    for w in sorted(ws):
        for k in range(len(w)):
            p, q = w[:k], w[:k + 1]
            if q not in st:
                st[q] = len(lines)
                lines.append([])
                lines[st[p]].append((w[k], w[k], st[q], weight(r, kind, False)))
    for w in sorted(ws):
        if flags and r.random() < 0.4:
            a = len(lines)
            lines.append([(r.choice(('@R.F@', '@D.F@')), '@0@', a + 1, weight(r, kind, False))])
            lines.append([(None, None, None, weight(r, kind, False))])
            lines[st[w]].append(('@P.F.X@', '@0@', a, weight(r, kind, False)))
        else:
            lines[st[w]].append((None, None, None, weight(r, kind, False)))
    for l in lines:
        r.shuffle(l)
    acc = Net.__new__(Net)
    acc.kind, acc.st, acc.alpha, acc.small = kind, lines, alpha, alpha
    # error model: k errors (replace, insert, delete), sometimes guarded by flags so that only one kind may occur
    k = r.choice((1, 1, 2))
    g = r.random() < 0.6
    es = [[] for _ in range(k + 1)]
    n = k + 1
    W = lambda: weight(r, kind, False)
    for e in range(k + 1):
        for c in alpha:
            es[e].append((c, c, e, 1.0 if kind == 'prob' else 0.0))
        if e < k:
            for what in 'RID':
                t = e
                if g:
                    es.append([])
                    t = len(es) - 1
                    es[e].append((r.choice(('@U.E.%s@', '@P.E.%s@')) % r.choice((what, 'R')), '@0@', t, W()))
                if what == 'R':
                    for c in alpha:
                        es[t].append((c, r.choice(alpha), e + 1, W()))
                elif what == 'I':
                    for c in r.sample(alpha, r.randrange(1, len(alpha) + 1)):
                        es[t].append(('@0@', c, e + 1, W()))
                else:
                    for c in r.sample(alpha, r.randrange(1, len(alpha) + 1)):
                        es[t].append((c, '@0@', e + 1, W()))
        if g and r.random() < 0.5:
            es.append([(None, None, None, W())])
            es[e].append((r.choice(('@R.E@', '@D.E.R@', '@U.E.I@')), '@0@', len(es) - 1, W()))
        es[e].append((None, None, None, W()))
    for l in es:
        r.shuffle(l)
    err = Net.__new__(Net)
    err.kind, err.st, err.alpha, err.small = kind, es, alpha, alpha
    return acc, err, sorted(ws)


def suggesting(o, idx, n, variant):
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c17')
    try:
        for _ in range(n):
            kind = r.choice(('prob', 'log'))
            acc, err, lex = lexicon(r, kind)
            fa, fe = acc.fst(), err.fst()
            order = r.choice(('le', 'be'))
            d = tempfile.mkdtemp(dir=tmp)
            m = d + '/5/mor-x'
            build.write_index(m, 'fi-x-x', 'x', 'Morphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n')
            ok = True
            for name, net in (('mor', acc), ('spl', acc), ('err', err)):
                ok = ok and good(o, compile_(net.att(), '%s/%s.vfst' % (m, name), kind, order, variant), net.att(), order, name)
            if not ok:
                continue
            ws = []
            for _ in range(40):
                w = r.choice(lex)
                for _ in range(r.choice((0, 1, 1, 2))):
                    p = r.randrange(len(w) + 1)
                    w = w[:p] + r.choice((r.choice(acc.alpha), '')) + w[p + r.randrange(2):]
                if 2 <= len(w) < 9:
                    ws.append(w)
            ws = list(dict.fromkeys(ws))
            res = o.run(['init\t0\t%s\t%s' % (OPT('fi-x-x'), OPT(d))] + ['sgU\t0\t' + U(w) for w in ws] + ['term\t0'], variant)
            if res is None:
                continue
            if res[0] != 'OK':
                o.violation('not opened', 'the compiled dictionary is refused: ' + res[0], {'spl': acc.att(), 'err': err.att(), 'order': order})
                continue
            o.stat('error models, byte order ' + order)
            for w, x in zip(ws, res[1:]):
                cands = {}
                try:
                    outs = fe.lookup(w, 15000)
                except OverflowError:
                    continue
                for t, v in outs:
                    a = fa.lookup(t)
                    if a:
                        cands[t] = min(cands.get(t, 1 << 30), v + a[0][1])
                got = drv.dec_list(x, True) or []
                o.case((acc.att(), err.att(), w) if cands else None)
                o.stat('suggestion lists compared')
                o.stat('suggestions expected', min(5, len(cands)))
                bad = None
                if len(got) != min(5, len(cands)) or len(set(got)) != len(got):
                    bad = 'wrong number of suggestions'
                elif any(g not in cands for g in got):
                    bad = 'a suggestion that the error model and the lexicon do not give'
                elif [cands[g] for g in got] != sorted(cands.values())[:5]:
                    bad = 'not the best suggestions in order of weight'
                if bad:
                    o.violation('suggestions', '%s for %r: %s; expected %s (byte order %s)' % (bad, w, [(g, cands.get(g)) for g in got], sorted(cands.items(), key=lambda z: z[1])[:8], order),
                                {'spl': acc.att(), 'err': err.att(), 'word': w, 'order': order, 'kind': kind})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def refusals(o, idx):
    """malformed descriptions and options end with an error status"""
    r = o.rng
    tmp = tempfile.mkdtemp(prefix='c17')
    try:
        base = '0\t1\ta\tb\n1\n'
        wbase = '0\t1\ta\tb\t0.5\n1\t0.5\n'
        cases = [(base, None, ['-f', 'xx']), (wbase, None, ['-w', 'xx']), ('0\t1\ta\n1\n', None, []), ('0\t1\n1\n', None, []), ('0\t5\ta\tb\n1\n', None, []),
                 ('0\t1\ta\tb\n3\n', None, []), ('0\t1\t[\tb\n1\n', None, []), ('0\t1\ta\t[\n1\n', None, []), ('0\t1\ta\tb\n1\n', 'prob', []),
                 ('0\t1\ta\tb\tx\n1\t1\n', 'prob', []), ('0\t1\ta\tb\n1\n', 'log', []), ('0\t2\ta\tb\n1\n', None, [])]
        for att, kind, extra in cases:
            cmd = [build.tool('plain', 'voikkovfstc'), '-o', tmp + '/x.vfst'] + (['-w', kind] if kind else []) + extra
            p = subprocess.run(cmd, input=att.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            o.case(('refuse', att, kind, extra))
            o.stat('malformed descriptions or options')
            if p.returncode != 1 or not p.stderr:
                o.violation('accepted-malformed', 'voikkovfstc %s ends with status %d and message %r for %r' % (cmd[3:], p.returncode, p.stderr[:100], att), {'att': att, 'cmd': cmd})
        p = subprocess.run([build.tool('plain', 'voikkovfstc')], input=base.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode != 1:
            o.violation('accepted-malformed', 'voikkovfstc without output file ends with status %d' % p.returncode, {})
        p = subprocess.run([build.tool('plain', 'voikkovfstc'), '-o', tmp + '/nosuch/x.vfst'], input=base.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        if p.returncode != 1:
            o.violation('accepted-malformed', 'voikkovfstc with an output file that cannot be written ends with status %d' % p.returncode, {})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def body(c):
    for v in ('plain', 'asan'):
        build.harness(v, 'drv')
    c.shards(weighted, c.n(96, 700), 12, 'plain')
    c.shards(unweighted, c.n(96, 700), 12, 'plain')
    c.shards(suggesting, c.n(64, 500), 12, 'plain')
    for fn in (weighted, unweighted, suggesting):
        c.shards(fn, c.n(8, 60), 6, 'asan')
    c.shards(refusals, 1)
    c.need = 3000


check.main('C17', RULE, body, assumptions=[
    'lookups stay within the documented search limits (100000 steps, 99 outputs, 2000 output characters) and sums of weights within 16 bits',
    'no cycles of empty transitions; at least one single-character symbol; "@" and "[" are not letters'])
