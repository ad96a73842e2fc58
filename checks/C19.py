"""C19: dictionary discovery and selection follow the documented search order."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv
from drv import U, C, OPT

RULE = ('seeded arrangements of dictionary directories in the path argument, the components of VOIKKO_DICTIONARY_PATH, the home directory (a stand-in for the password file '
        'names a scratch one) and the compiled-in locations, with valid, foreign-version, damaged and misplaced entries, every dictionary recognisable by the only word its '
        'speller accepts; monitor: listed dictionaries, supported-language lists, and for many requested tags (with and without VOIKKO_DICTIONARY) which dictionary opens or '
        'that none does, compared with a reference of the search. A case is one (arrangement, query); non-trivial when at least two dictionaries are in the arrangement; '
        'distinct by arrangement and query')
IDS = 'abcdefghijklmnopqrstuvwxyzåäö'


MISS = 'åöå'      # the word each error model corrects to the word of its dictionary


def spellers():
    """tiny transducers, one of each kind per letter: a speller that accepts only the letter three times (and is an analyser, too), an error model from MISS
    to that word, and an autocorrect list that knows that word"""
    plain = build.lib('plain')

    def make(dest):
        for k, c in enumerate(IDS):
            att = '0\t1\t%s\t%s\t1\n1\t2\t%s\t%s\t1\n2\t3\t%s\t%s\t1\n3\t1\n' % ((c,) * 6)
            err = '0\t1\t%s\t%s\t1\n1\t2\t%s\t%s\t1\n2\t3\t%s\t%s\t1\n3\t1\n' % tuple(x for y in MISS for x in (y, c))
            cor = '0\t1\t%s\tk\n1\t2\t%s\to\n2\t3\t%s\te\n3\n' % (c, c, c)
            build.run([plain + '/voikkovfstc', '-w', 'prob', '-o', '%s/%d.vfst' % (dest, k)], input=att.encode())
            build.run([plain + '/voikkovfstc', '-w', 'prob', '-o', '%s/e%d.vfst' % (dest, k)], input=err.encode())
            build.run([plain + '/voikkovfstc', '-o', '%s/c%d.vfst' % (dest, k)], input=cor.encode())
    return build.artefact('idspellers', build.tree_hash([os.path.abspath(__file__)], plain), make)


def low(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def parse_tag(t):
    head, sep, priv = t.partition('-x-')
    lang, sep2, script = head.partition('-')
    lang = low(lang.split('_', 1)[0])
    if len(script.encode()) != 4:
        script = ''
    return lang, script, low(priv.replace('-', ''))


def tag_text(t):
    return t[0] + ('-' + t[1] if t[1] else '') + ('-x-' + t[2] if t[2] else '')


LANGS = ['fi', 'fi', 'fi', 'se', 'en', 'FI', 'fi_FI', 'vot', 'En', 'aa']
PRIVS = [None, None, 'standard', 'standard', 'default', 'default', 'medical', 'Science', 'med-ical', 'xstandard', 'a', 'STANDARD', 'sukija', '-x', 'standardx', 'fi_FI']
SCRIPTS = [None] * 6 + ['Cyrl', 'Latn', 'FI', 'cyrl', 'Latin']


def rand_tag(r):
    t = r.choice(LANGS)
    s = r.choice(SCRIPTS)
    if s:
        t += '-' + s
    p = r.choice(PRIVS) if r.random() < 0.85 else ''.join(r.choice('abAB-xX_5') for _ in range(r.randrange(1, 12)))
    if p:
        t += '-x-' + p
    return t


def respell(r, t):
    """another spelling of a normalised tag"""
    up = lambda x: ''.join(c.upper() if c.isascii() and r.random() < 0.3 else c for c in x)
    p = ''
    for c in t[2]:
        p += '-' * (r.random() < 0.2) * r.randrange(1, 3) + c
    return up(t[0]) + r.choice(('', '', '_FI', '_')) + ('-' + t[1] if t[1] else '') + ('-x-' + up(p) + r.choice(('', '', '-')) if t[2] else '')


class Dict:
    def __init__(self, tag, desc, ident, back):
        self.tag, self.desc, self.ident, self.back = tag, desc, ident, back

    def expect(self):
        """what the dictionary answers: verdicts on all marker words, analysed words, suggestions for MISS, marker words flagged by the grammar checker"""
        speller, mor, sug, gram = self.back
        one = ''.join('1' if j == self.ident else '0' for j in range(len(IDS)))
        sp = {'vfst': one, 'AllOk': '1' * len(IDS), 'AllError': '0' * len(IDS), 'adapter': one if mor == 'vfst' else '0' * len(IDS), None: '0' * len(IDS)}[speller]
        return sp, mor == 'vfst', [IDS[self.ident] * 3] if sug == 'vfst' else [], {'null': 'none', 'finnish': 'some', 'finnishVfst': 'own', None: 'own'}[gram]


def write_dict(r, d, ident, tag, sp):
    """a dictionary directory; returns the Dict it means, or None when it is none"""
    os.makedirs(d)
    desc = r.choice(('suomi', 'kuvaus %d' % ident, '', 'ääkköset – ☃', 'Language: en', ' x '))
    lines = []
    if tag is not None:
        lines.append('Language: ' + tag)
    if r.random() < 0.9:
        lines.append('Description: ' + desc)
    else:
        desc = ''
    speller = r.choice(('vfst', 'vfst', 'vfst', 'adapter', 'adapter', 'AllOk', 'AllError', None))
    mor = r.choice(('null', 'vfst')) if speller not in (None, 'adapter') else 'null'
    sug = r.choice(('null', 'vfst')) if speller == 'vfst' else r.choice(('null', 'null', None)) if mor == 'null' else 'null'
    gram = r.choice(('null', 'null', 'finnish', 'finnishVfst', None)) if mor == 'null' else 'null'
    back = (speller, mor, sug, gram)
    if speller:
        lines.append('Speller-Backend: ' + {'adapter': 'AnalyzerToSpellerAdapter(currentAnalyzer)'}.get(speller, speller))
    lines.append('Morphology-Backend: ' + mor)
    if sug:
        lines.append('Suggestion-Backend: ' + sug)
    if gram:
        lines.append('Grammar-Backend: ' + gram)
    if r.random() < 0.3:
        lines.append('Hyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)')
    r.shuffle(lines)
    if r.random() < 0.2:
        lines.insert(r.randrange(len(lines) + 1), r.choice(('# comment', '', 'Foo: bar', 'xLanguage: en', ' Language: en', 'language: en', 'Copyright: Language: se')))
    first = 'Voikko-Dictionary-Format: 5'
    kind = r.random()
    if kind < 0.08:
        first = r.choice(('Voikko-Dictionary-Format: 4', 'Voikko-Dictionary-Format: 55', 'Voikko-Dictionary-Format: 5 ', 'voikko-dictionary-format: 5', '', 'Voikko-Dictionary-Format:5'))
    text = first + '\n' + '\n'.join(lines) + r.choice(('\n', ''))
    bad = kind < 0.08
    if kind > 0.95:
        bad = True
        if kind > 0.98:
            os.makedirs(d + '/index.txt')
    else:
        with open(d + '/index.txt', 'w', encoding='utf-8') as f:
            f.write(text)
    for a, b in (('spl', ''), ('mor', ''), ('err', 'e'), ('autocorr', 'c')):
        shutil.copy('%s/%s%d.vfst' % (sp, b, ident), '%s/%s.vfst' % (d, a))
    if bad:
        return None
    t = parse_tag(tag if tag is not None else 'fi')
    if not t[0]:
        return None
    return Dict(t, desc, ident, back)


def location(r, loc, ids, sp, pool):
    """fills <loc>/5; returns the dictionaries in it"""
    out, seen = [], set()
    os.makedirs(loc + '/5')
    for n in range(r.choice((0, 1, 1, 2, 3, 4))):
        if not ids:
            break
        tag = (r.choice(pool) if pool else rand_tag(r)) if r.random() < 0.93 else r.choice((None, '', '-x-foo', '_FI'))
        key = parse_tag(tag if tag is not None else 'fi')
        if key in seen or (key[2] == 'default' and ('default', key[0]) in seen):
            continue
        seen.add(key)
        if key[2] == 'default':
            seen.add(('default', key[0]))
        ident = ids.pop()
        name = 'mor-' + r.choice(('%d', 'x%d', 'Z %d', 'standard%d', 'ä%d')) % n
        place = r.random()
        if place < 0.06:
            write_dict(r, loc + '/5/' + r.choice(('foo-%d', 'Mor-%d', 'mo-%d', 'xmor-%d')) % n, ident, tag, sp)
            continue
        if place < 0.1:
            write_dict(r, loc + '/4/' + name, ident, tag, sp)
            continue
        if place < 0.13:
            write_dict(r, loc + '/5/mor-', ident, tag, sp) if not os.path.exists(loc + '/5/mor-') else None
            continue
        if place < 0.16:
            open(loc + '/5/mor-file%d' % n, 'w').close()
            continue
        d = write_dict(r, loc + '/5/' + name, ident, tag, sp)
        if d:
            out.append(d)
    return out


def merge(locs):
    """reference of the search: tag -> dictionary, in tag order, and which are defaults"""
    found, default = {}, {}
    for ds in locs:
        for d in ds:
            isdef = d.tag[2] == 'default' and d.tag[0] not in default
            if d.tag not in found:
                found[d.tag] = d
            if isdef:
                default[d.tag[0]] = d.tag
    return found, default


def preferred(found, default):
    """in the order in which a language's dictionaries are considered"""
    order = []
    for t in sorted(found, key=lambda t: tag_text(t).encode()):
        if default.get(t[0]) == t or (t[2] == 'standard' and t[0] not in default):
            order.insert(0, t)
        else:
            order.append(t)
    return order


def select(order, request, env):
    lang, script, priv = parse_tag(request)
    if env is not None and priv in ('', 'default'):
        priv = low(env.replace('-', ''))
    for t in order:
        if t[0] == lang and t[1] == script and (priv == '' or t[2] == priv or (priv == 'standard' and t[2] == '')):
            return t
    return None


def gram_kind(errs, ident):
    if not errs:
        return 'none'
    flagged = [(x[1], x[2], x[3]) for x in errs if x[0] == 1]
    if not flagged:
        return 'some'
    return 'own' if flagged == [(4 * ident, 3, ['koe'])] else 'other'


def run(o, idx, n):
    r = o.rng
    sp = spellers()
    for _ in range(n):
        tmp = tempfile.mkdtemp(prefix='c19')
        try:
            ids = list(range(len(IDS)))
            r.shuffle(ids)
            env = {}
            pool = [rand_tag(r) for _ in range(4)] if r.random() < 0.6 else None     # few tags: many dictionaries shadow each other
            path = None
            order = []
            if r.random() < 0.7:
                path = tmp + '/path'
                order.append(location(r, path, ids, sp, pool))
            elif r.random() < 0.5:
                path = r.choice(('', tmp + '/nosuch'))
            if r.random() < 0.7:
                comp = []
                for k in range(r.choice((1, 2, 3))):
                    if r.random() < 0.15:
                        comp.append(tmp + '/missing%d' % k)
                    else:
                        comp.append(tmp + '/env%d' % k + r.choice(('', '', '/')))
                        order.append(location(r, tmp + '/env%d' % k, ids, sp, pool))
                env['VOIKKO_DICTIONARY_PATH'] = ':'.join(comp) + r.choice(('', '', ':'))
            elif r.random() < 0.2:
                env['VOIKKO_DICTIONARY_PATH'] = ''
            if r.random() < 0.4:
                env['DRV_HOME'] = tmp + '/home'
                order.append(location(r, tmp + '/home/.voikko', ids, sp, pool))
            os.makedirs(tmp + '/cwd')
            for k in (1, 2):
                if r.random() < 0.4:
                    order.append(location(r, tmp + '/cwd/verif-builtin-%d' % k, ids, sp, pool))
            venv = None
            if r.random() < 0.35:
                venv = r.choice(('medical', 'standard', 'default', 'nosuch', 'Science', 'med-ical', ''))
                env['VOIKKO_DICTIONARY'] = venv
            found, default = merge(order)
            pref = preferred(found, default)
            reqs = ['fi', 'se', 'fi-x-standard', 'fi-x-default', 'fi-x-medical', '', 'fi_FI', 'en', 'fi-Cyrl', 'sv']
            reqs += [rand_tag(r) for _ in range(12)] + [tag_text(t) for t in r.sample(list(found), min(8, len(found)))]
            reqs += [respell(r, t) for t in r.sample(list(found), min(6, len(found)))]
            cmds = ['%s\t%s' % (op, OPT(path)) for op in ('ld', 'ls', 'lh', 'lg')]
            probe = ['spM\t0\t' + ' '.join(U(c * 3) for c in IDS), '', 'sgU\t0\t' + U(MISS), 'gaU\t0\t' + U(' '.join(c * 3 for c in IDS))]
            anq = ['anU\t0\t' + U(c * 3) for c in IDS]
            for q in reqs:
                cmds += ['init\t0\t%s\t%s' % (OPT(q), OPT(path)), 'term\t0']
            # queries on a handle that was not opened are left out: first learn which open
            res = o.run(cmds, env=env, cwd=tmp + '/cwd')
            if res is None:
                continue
            opens = [x == 'OK' for x in res[4::2]]
            cmds2 = []
            for q, ok in zip(reqs, opens):
                if ok:
                    cmds2 += ['init\t0\t%s\t%s' % (OPT(q), OPT(path)), probe[0]] + anq + probe[2:] + ['term\t0']
            res2 = o.run(cmds2, env=env, cwd=tmp + '/cwd') if cmds2 else []
            if res2 is None:
                continue
            w = {'locations': [[(tag_text(d.tag), d.desc, d.ident, d.back) for d in ds] for ds in order], 'env': env, 'path': path}
            nontriv = sum(len(x) for x in order) >= 2
            o.stat('arrangements')
            o.stat('dictionaries', sum(len(x) for x in order))
            o.stat('shadowed dictionaries', sum(len(x) for x in order) - len(found))
            key = repr(w['locations'])
            # listings
            got = []
            for x in (res[0].split(' ')[1:]):
                got.append(tuple(drv.unC(y) for y in x.split(',')))
            want = [(t[0], t[1], t[2] or 'standard', found[t].desc) for t in pref]
            o.case(('list', key) if nontriv else None)
            if got != want:
                o.violation('listing', 'voikko_list_dicts(%r) gives %s, expected %s' % (path, got, want), w)
            langs = sorted({t[0] + ('-' + t[1] if t[1] else '') for t in found}, key=lambda x: x.encode())
            for op, x in zip(('spelling', 'hyphenation', 'grammar'), res[1:4]):
                o.case(('langs', op, key) if nontriv else None)
                g = drv.dec_list(x, False)
                if sorted(g or []) != sorted(langs):
                    o.violation('languages-' + op, 'supported %s languages are %s, expected %s' % (op, g, langs), w)
            # selection
            k = 0
            for q, ok in zip(reqs, opens):
                t = select(pref, q, venv)
                o.case(('open', key, venv, q) if nontriv else None)
                o.stat('openings that succeed' if ok else 'openings that fail')
                if ok != (t is not None):
                    o.violation('open', 'opening %r %s, expected %s' % (q, 'succeeds' if ok else 'fails', tag_text(t) if t else 'no dictionary'), dict(w, request=q))
                if ok:
                    L = len(anq) + 5
                    x = res2[L * k:L * k + L]
                    k += 1
                    if t is None:
                        continue
                    d = found[t]
                    sp_, an_, sg_, gr_ = d.expect()
                    e = [sp_, [j for j in range(len(IDS)) if an_ and j == d.ident], sg_]
                    g = [x[1], [j for j in range(len(IDS)) if x[2 + j] != 'L'], drv.dec_list(x[2 + len(IDS)], True) or []]
                    errs = [tuple(y[:4]) for y in drv.dec_errors(x[3 + len(IDS)])]
                    e.append(gr_)
                    g.append(gram_kind(errs, d.ident))
                    if g != e:
                        o.violation('selected', 'opening %r gave a dictionary that answers (verdicts, analysed, suggestions, grammar errors) %s, expected %s (%s, ident %d, back ends %s); errors %s' % (q, g, e, tag_text(t), d.ident, d.back, errs), dict(w, request=q))
            o.sample({'locations': w['locations'], 'requests': reqs[:4], 'opened': opens[:4]})
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def body(c):
    build.harness('plain', 'drv')
    spellers()
    c.shards(run, c.n(240, 3000), 16)
    c.need = 2000


check.main('C19', RULE, body, assumptions=['a location holds at most one dictionary per language tag and at most one -x-default per language (otherwise the order of directory entries decides)', '/etc/voikko is as found in the sandbox (absent)'])
