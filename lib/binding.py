"""Calls on a language binding, and what the C interface says they have to answer.

A call is a tuple; strings are Python strings. Answers are lines in the format of harness/pyworker.py."""
import os, shutil, subprocess
import build, check, drv, gen
from drv import U, C, OPT

SETTERS = {'setIgnoreDot': 0, 'setIgnoreNumbers': 1, 'setIgnoreUppercase': 3, 'setNoUglyHyphenation': 4, 'setAcceptFirstUppercase': 6, 'setAcceptAllUppercase': 7,
           'setIgnoreNonwords': 10, 'setAcceptExtraHyphens': 11, 'setAcceptMissingHyphens': 12, 'setAcceptTitlesInGc': 13, 'setAcceptUnfinishedParagraphsInGc': 14,
           'setHyphenateUnknownWords': 15, 'setAcceptBulletedListsInGc': 16}
INTS = {'setMinHyphenatedWordLength': 9, 'setSpellerCacheSize': 17}
TOK = ['NONE', 'WORD', 'PUNCTUATION', 'WHITESPACE', 'UNKNOWN']
SEN = ['NONE', 'NO_START', 'PROBABLE', 'POSSIBLE']
STRING_FIELDS = {'new': (2, 3), 'newterm': (2, 3), 'sp': (2,), 'sg': (2,), 'gr': (2, 3), 'an': (2,), 'tk': (2,), 'st': (2,), 'av': (2,), 'hp': (2,), 'hd': (2,), 'hy': (2, 3),
                 'ld': (1,), 'ls': (1,), 'lh': (1,), 'lg': (1,)}
DEAD = 'X:VoikkoException'


def bindlib():
    """directory with a libvoikko.so.1 that counts its live allocations"""
    ldir = build.lib('plain')
    src = build.HARNESS + '/alloccount.cpp'

    def make(dest):
        shutil.copy(ldir + '/libvoikko.a', dest + '/l.a')
        names = subprocess.run(['nm', '-A', '-u', dest + '/l.a'], stdout=subprocess.PIPE).stdout.decode().split('\n')
        gone = sorted({l.split(':')[1] for l in names if 'hfst_ospell' in l})
        if gone:
            build.run(['ar', 'd', dest + '/l.a'] + gone)
        build.run(['g++', '-shared', '-O2', '-g', '-fPIC', '-std=c++17', '-pthread', '-Wl,-soname,libvoikko.so.1', '-Wl,-Bsymbolic', '-static-libstdc++', '-static-libgcc', src, '-Wl,--whole-archive',
                   dest + '/l.a', '-Wl,--no-whole-archive', '-Wl,--no-undefined', '-Wl,--wrap=malloc', '-Wl,--wrap=free', '-Wl,--wrap=realloc', '-o', dest + '/libvoikko.so.1'])
        os.remove(dest + '/l.a')
    return build.artefact('bindlib', build.tree_hash([src], ldir), make)


def x(t):
    return t.encode('utf-16-be', 'surrogatepass').hex() or '_'


def lst(l):
    return ' '.join(['L'] + list(l))


def units(t):
    return len(t.encode('utf-16-be', 'surrogatepass')) // 2


def line(c):
    """the call as a line for the worker"""
    op = c[0].lstrip('*')
    f = [str(y) for y in c]
    for i in STRING_FIELDS.get(op, ()):
        f[i] = '-' if c[i] is None else c[i].encode('utf-16-be', 'surrogatepass').hex()
    if op == 'sort':
        f = [c[0], ' '.join(','.join(x(p) for p in d) for d in c[1])]
    return '\t'.join(f)


class Ref:
    """translates calls into commands for the driver and their answers into what the binding has to answer"""
    def __init__(self, java=False):
        # java: 'js' for the JavaScript binding, which has UTF-16 strings too, but keeps surrogate pairs together and gives no offsets
        self.java, self.cmds, self.want, self.state = java, [], [], {}
        self.js = java == 'js'

    def d(self, *f):
        self.cmds.append('\t'.join(str(y) for y in f))
        return len(self.cmds) - 1

    def word(self, op, h, w):
        # the limit on the length of a word is in bytes in the UTF-8 calls, in characters in the others
        return self.d(op + 'C', h, C(w)) if self.java else self.d(op + 'U', h, U(w))

    def later(self, fn):
        self.want.append(fn)

    def segments(self, t):
        """the text cut at the characters the binding takes out: (text, is a special character)"""
        out, cur = [], ''
        for ch in t:
            if ch == '\0' or self.java and not self.js and ord(ch) > 0xffff:
                out.append((cur, False))
                if ch == '\0':
                    out.append((ch, True))
                else:
                    b = ch.encode('utf-16-be')
                    out += [(b[k:k + 2].decode('utf-16-be', 'surrogatepass'), True) for k in (0, 2)]
                cur = ''
            else:
                cur += ch
        return out + [(cur, False)]

    def paragraphs(self, t):
        if self.java:
            t = t.replace('\r', '\n')
        return t.split('\n')

    def length(self, t):
        return units(t) if self.java else len(t)

    def add(self, c):
        op = c[0].lstrip('*')
        if op in ('new', 'newterm'):
            k = 15 if op == 'newterm' else c[1]
            i = self.d('init', k, OPT(c[2] or None), OPT(c[3] or None))
            if op == 'newterm':
                self.d('term', k)
            ok = self.probe(c)
            if op == 'new':
                self.state[k] = ok
            return self.later(lambda a: 'OK' if a[i] == 'OK' else DEAD)
        if op == 'load':
            return self.later(lambda a: 'OK1')
        if op == 'ver':
            i = self.d('ver')
            return self.later(lambda a: x(drv.unC(a[i])))
        if op == 'ld':
            i = self.d('ld', OPT(c[1] or None))
            return self.later(lambda a: lst(','.join(x(drv.unC(p)) for p in e.split(',')) for e in a[i].split(' ')[1:]))
        if op in ('ls', 'lh', 'lg'):
            i = self.d(op, OPT(c[1] or None))
            return self.later(lambda a: lst(x(s) for s in drv.dec_list(a[i], False)))
        if op == 'sort':
            return self.later(lambda a: lst(','.join(x(p) for p in d) for d in sorted(c[1])))
        h = c[1]
        if op == 'term':
            if self.state[h] == 'live':
                self.d('term', h)
                self.state[h] = 'dead'
            return self.later(lambda a: 'OK')
        if op == 'del':
            if self.state[h] == 'live':
                self.d('term', h)
            self.state[h] = None
            return self.later(lambda a: 'OK')
        if self.state[h] == 'dead':
            return self.later(lambda a: DEAD)
        if op == 'set':
            if c[3] == 'BADSTRATEGY':
                return self.later(lambda a: DEAD)
            if c[2] == 'setSuggestionStrategy':
                i = self.d('bo', h, 8, int(c[3] == 'OCR'))
            elif c[2] in INTS:
                i = self.d('io', h, INTS[c[2]], c[3])
            else:
                i = self.d('bo', h, SETTERS[c[2]], int(c[3] == 'true'))
            return self.later(lambda a: 'OK' if a[i] == '1' else DEAD)
        if op in ('bo', 'io'):
            i = self.d(op, h, c[2], c[3])
            return self.later(lambda a: 'OK' if a[i] == '1' else DEAD)
        w = c[2]
        nul = '\0' in w
        if op == 'sp':
            if nul:
                return self.later(lambda a: '0')
            i = self.word('sp', h, w)
            return self.later(lambda a: a[i] if a[i] in '01' else DEAD)
        if op == 'sg':
            if nul:
                return self.later(lambda a: 'L')
            i = self.word('sg', h, w)
            return self.later(lambda a: lst(x(s) for s in drv.dec_list(a[i], not self.java) or []))
        if op == 'an':
            if nul:
                return self.later(lambda a: 'L')
            i = self.word('an', h, w)
            return self.later(lambda a: lst(';'.join('%s=%s' % (k, x(d[k])) for k in sorted(d)) or '_' for d in drv.dec_analyses(a[i], not self.java) or []))
        if op == 'gr':
            if nul:
                return self.later(lambda a: 'L')
            ps, at = [], 0
            for p in self.paragraphs(w):
                ps.append((self.d('gaU', h, U(p), c[3]), at, p))
                at += self.length(p) + 1

            def errs(a):
                out = []
                for i, at, p in ps:
                    for e in drv.dec_errors(a[i]):
                        st, n = self.length(p[:e[1]]), self.length(p[e[1]:e[1] + e[2]])
                        out.append('%d:%d:%d:%s:%s' % (e[0], at + st, n, x(e[4] or ''), ','.join(x(s) for s in e[3] or [])))
                return lst(out)
            return self.later(errs)
        if op == 'tk':
            segs = [(s, sp, None if sp or not s else self.d('tkU', h, U(s))) for s, sp in self.segments(w)]

            def toks(a):
                out, pos = [], 0
                for s, sp, i in segs:
                    if sp:
                        out.append(('UNKNOWN', s))
                    elif s:
                        at = 0
                        for t, n in drv.dec_pairs(a[i]):
                            if t:
                                out.append((TOK[t], s[at:at + n]))
                                at += n
                res = []
                for t, s in out:
                    res.append('%s:%s' % (t, x(s)) + (':%d' % pos if self.java and not self.js else ''))
                    pos += units(s)
                return lst(res)
            return self.later(toks)
        if op == 'st':
            if nul:
                return self.later(lambda a: lst(['NONE:' + x(w)]))
            i = self.d('stU', h, U(w))

            def sents(a):
                out, at = [], 0
                for t, n in drv.dec_pairs(a[i]):
                    out.append('%s:%s' % (SEN[t], x(w[at:at + n])))
                    at += n
                return lst(out)
            return self.later(sents)
        if op == 'av':
            if nul:
                return self.later(lambda a: 'N')
            i = self.d('av', h, w.encode('utf-8', 'surrogatepass').decode('latin-1'))
            return self.later(lambda a: 'N' if a[i] == 'N' else lst(x(s) for s in drv.dec_list(a[i], False)))
        if op == 'hp':
            if nul:
                return self.later(lambda a: 'S' + x(' ' * self.length(w)))
            i = self.word('hy', h, w)
            return self.later(lambda a: 'S' + x(' ' * self.length(w) if a[i] == 'N' else drv.dec_pattern(a[i])))
        if op in ('hy', 'hd'):
            sep, ctx = (c[3], c[4]) if op == 'hy' else ('-', 1)
            if nul or '\0' in sep:
                return self.later(lambda a: 'S' + x(w))
            i = self.d('ih', h, C(w), C(sep), ctx)
            return self.later(lambda a: 'S' + x(w if a[i] == 'N' else drv.dec_str(a[i])))
        raise ValueError(op)

    def probe(self, c):
        """does the instance come up? (decides how the calls after it are predicted)"""
        return 'live' if c[2] and self.known(c[2], c[3]) else None

    @staticmethod
    def known(lang, path):
        return (lang, path) in GOOD()


_good = []


def GOOD():
    if not _good:
        _good.append({('fi-x-full', build.dict_full()), ('fi', build.dict_full()), ('fi-x-svfst', build.dict_svfst())} | {('fi-x-' + m, build.dict_more()) for m in ('ids', 'null', 'err', 'swap')})
    return _good[0]


def expected(o, calls, java=False):
    """what the binding has to answer, according to the C interface; None if the library died"""
    r = Ref(java)
    for c in calls:
        r.add(c)
    a = o.run(r.cmds or ['#'], timeout=300)
    return None if a is None else [w(a) for w in r.want]


def clean(s):
    return ''.join(ch for ch in s if not 0xd800 <= ord(ch) < 0xe000)


def string(r, kind):
    if kind == 'word':
        w = gen.word(r, 0.3)
        if r.random() < 0.1:
            w = r.choice((w + '.', w.upper(), w.capitalize(), w + '1', w[:3] + '-' + w[3:], '-' + w, w + '-', 'www.' + w + '.fi'))
    else:
        k = r.random()
        w = gen.text(r) if k < 0.6 else gen.sentence(r) if k < 0.8 else '\n'.join(gen.sentence(r) for _ in range(r.randrange(2, 6)))
        if r.random() < 0.2:
            w = w.replace('. ', r.choice(('.\n', '.\n\n', '.\r\n', '.\u2029')), 2)
        if r.random() < 0.2:
            for _ in range(r.randrange(1, 5)):
                p = r.randrange(len(w) + 1)
                w = w[:p] + chr(r.choice((0x1f642, 0x10400, 0x10ffff, 0x1d400, 0x20000))) + w[p:]
    if r.random() < 0.03:
        w = ''
    if r.random() < 0.06:
        for _ in range(r.randrange(1, 3)):
            p = r.choice((0, len(w), r.randrange(len(w) + 1)))
            w = w[:p] + '\0' + w[p:]
    else:
        w = w.replace('\0', '')
    return clean(w)


ATTR = ('CLASS', 'SIJAMUOTO', 'NUMBER', 'PERSON', 'MOOD', 'TENSE', 'COMPARISON', 'NEGATIVE', 'PARTICIPLE', 'POSSESSIVE', 'NOSUCH', '', 'BASEFORM', 'class', 'CLAS', 'CLASS\0', '\0', 'LUOKKA\u00e4')
SEPS = ('-', '\u00ad', '&shy;', '', '==', '\u2010', '\U0001f642', 'a', '\0', '-\0')


def call(r, h, java, heavy=0.1):
    op = r.choice(('sp', 'sp', 'hp', 'hy', 'hd', 'an', 'an', 'tk', 'tk', 'st', 'gr', 'gr', 'av'))
    if r.random() < heavy:
        op = 'sg'
    if op == 'av':
        return (op, h, r.choice(ATTR))
    if op in ('tk', 'st', 'gr'):
        t = string(r, 'text')
        if op == 'gr':
            return (op, h, t, r.choice(('fi', 'en', 'en_US', 'xx', 'fi_FI', '', 'fi')))
        return (op, h, t)
    w = string(r, 'word')
    if op == 'hy':
        return (op, h, w, r.choice(SEPS), r.randrange(2))
    return (op, h, w)


def setter(r, h, java):
    k = r.random()
    if k < 0.75:
        return ('set', h, r.choice(sorted(SETTERS)), r.choice(('true', 'false')))
    if k < 0.85:
        return ('set', h, 'setMinHyphenatedWordLength', r.choice((-1, 0, 2, 3, 5, 8, 30)))
    if k < 0.92:
        return ('set', h, 'setSuggestionStrategy', r.choice(('OCR', 'TYPO') + (() if java else ('BADSTRATEGY',))))
    if k < 0.95 or java:
        return ('set', h, 'setSpellerCacheSize', r.choice((-1, 0, 1, 2)))
    return r.choice((('bo', h, r.choice((0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 2, 5, 9, 17, 18, 99, -1)), r.randrange(2)), ('io', h, r.choice((9, 17, 0, 3, 99, -5)), r.randrange(0, 4))))


DEADCALLS = (('sp', 'koira'), ('sg', 'koirra'), ('hp', 'koira'), ('hd', 'koira'), ('an', 'koira'), ('tk', 'Koira juoksee.'), ('st', 'Koira juoksee. Kissa.'), ('gr', 'Tämä on on.', 'fi'), ('av', 'CLASS'),
             ('hy', 'koira', '-', 1), ('set', 'setIgnoreDot', 'true'), ('set', 'setMinHyphenatedWordLength', 3), ('set', 'setSuggestionStrategy', 'OCR'))


def program(r, n, java=False, star=0.35, heavy=0.1, base=0):
    """a random history of calls on a few instances (numbers base..base+2)"""
    good = sorted(GOOD())
    full = [g for g in good if g[0] in ('fi-x-full', 'fi')]
    calls, live, dead = [], [], []

    def new(h):
        g = r.choice(full) if r.random() < 0.75 else r.choice(good)
        calls.append(('new', h) + g)
        live.append(h)
        if h in dead:
            dead.remove(h)
        for _ in range(r.randrange(0, 5)):
            calls.append(setter(r, h, java))
    new(base)
    while len(calls) < n:
        k = r.random()
        if k < 0.03 and len(live) < 3:
            new(r.choice([h for h in range(base, base + 3) if h not in live]))
        elif k < 0.04:
            calls.append(('new', base + 9) + r.choice((('xx', build.dict_full()), ('fi-x-nosuch', build.dict_full()), ('', None), ('fi', '/nonexistent'), (None, None), ('fi-x-full', None))))
        elif k < 0.05 and len(live) > 1:
            h = r.choice(live)
            live.remove(h)
            calls.append(('term', h))
            dead.append(h)
        elif k < 0.07 and dead:
            h = r.choice(dead)
            if r.random() < 0.2:
                calls.append(('term', h))
            else:
                d = r.choice(DEADCALLS)
                calls.append((d[0], h) + d[1:])
        elif k < 0.08 and live and len(live) > 1 and not java:
            h = r.choice(live)
            live.remove(h)
            calls.append(('del', h))
        elif k < 0.2:
            calls.append(setter(r, r.choice(live), java))
        else:
            c = call(r, r.choice(live), java, heavy)
            if r.random() < star:
                c = ('*' + c[0],) + c[1:]
            calls.append(c)
    return calls


WORDS = ['kissa', 'kissa.', 'kissa1', 'KISSA', 'KISSAXQ', 'KiSSa', 'Kissa', 'kISSA', 'kissa-', '-kissa', 'http://www.kissa.fi', 'kissa@koira.fi', 'kissa-koira', 'kissakoira-', 'kuorma-auto', 'kuormaauto',
         'asiointi', 'aie', 'alueiden', 'koiraxyzkka', 'xyzzyttely', 'rei\u2019ittää', "vaa'an", 'linja-autoasema', 'puolikoira', 'auto-', 'maa-ala', 'suomi', 'Suomi', 'SUOMI', 'suomeksi', '1234', 'kissa-auto',
         'koirakissa', 'juoksuauto', 'ruoka-aika', 'ruokaaika', 'i', 'ja', 'iso', 'syöttö', 'koira-kissa', 'xyz-koira', 'koiria', 'ilo-koira']
BAD = ['kisssa', 'koirra', 'kolra', 'k0ira', 'juoksce', 'talo0', 'auto1']
TEXTS = ['Kissa juoksee', 'Tämä on otsikko', 'tämä on on lause.', 'Kissa juoksee.', 'kissa', '- kissa juoksee', 'Kissa juoksee. koira istuu', 'Kissa juoksee ja', 'kissa.koira', 'Koira kissa. Auto', 'Kissa . Koira',
         'Hän osaa juosta,koira', 'Lehmä söi ruohoa. Kissa', 'KISSA JUOKSEE', 'Talo:\nauto\nkissa', 'Ostin auton kissa.1', '1. Kissa', 'Kissa (koira']


def battery(h):
    """calls whose answers tell the options apart"""
    out = []
    for w in WORDS:
        out += [('sp', h, w), ('hp', h, w), ('hd', h, w), ('an', h, w)]
    out += [('hy', h, w, s, k) for w in ("rei'ittää", "vaa'an", 'linja-auto', 'koirakissa') for s in ('-', '\u00ad', '') for k in (0, 1)]
    out += [('sg', h, w) for w in BAD]
    for t in TEXTS:
        out += [('tk', h, t), ('st', h, t), ('gr', h, t, 'fi'), ('gr', h, t, 'en')]
    return out


def exotic(r, path):
    """dictionaries whose descriptions and tags are unusual"""
    for i in range(r.randrange(2, 7)):
        lang = r.choice(('fi', 'sv', 'et', 'fi-Latn', 'sme', 'ru-Cyrl')) + '-x-' + r.choice(('aaa', 'bbb', 'c1'))
        if i == 0:
            lang = 'fi-x-aaa'
        if not os.path.isdir(path + '/5/mor-' + lang):
            shutil.copytree(build.dict_full() + '/5/mor-full', path + '/5/mor-' + lang)
        build.write_index(path + '/5/mor-' + lang, lang, ''.join(r.choice(('Å', 'suomi', ' ', '\u6f22', '\U0001f642', 'ä', '(x)', ': ')) for _ in range(r.randrange(0, 8))))
    GOOD().add(('fi-x-aaa', path))


def compare(o, calls, got, want, name, extra=None):
    """answers of the binding against what they have to be; False after the first difference"""
    ok = True
    for i, (c, g, w) in enumerate(zip(calls, got, want)):
        star = c[0].startswith('*')
        a, _, grow = g.partition('\t')
        op = c[0].lstrip('*')
        o.stat('%s: calls of %s' % (name, op))
        if star:
            o.stat('%s: calls watched for leaks' % name)
        nontrivial = w not in ('L', 'N', '0', 'OK')
        o.case((c, w) if nontrivial else None)
        wit = {'call': c, 'got': g[:2000], 'expected': w[:2000], 'history': [d for d in calls[:i] if d[0] in ('new', 'set', 'bo', 'io', 'term', 'del')][-40:], 'seed info': extra}
        if a != w:
            o.violation('%s:%s' % (name, op), '%s %r answers %s, the library says %s' % (name, c, show(a), show(w)), wit)
            ok = False
        elif star and int(grow) > 0:
            o.violation('%s:leak:%s' % (name, op), '%s %r leaves %s allocations of the library behind at each call' % (name, c, grow), wit)
            ok = False
    return ok


def show(a):
    out = []
    for t in a.split(' ')[:12]:
        p = []
        for q in t.split(':'):
            try:
                p.append(bytes.fromhex(q).decode('utf-16-be') if len(q) >= 4 and len(q) % 4 == 0 else q)
            except ValueError:
                p.append(q)
        out.append(':'.join(p))
    return ' '.join(out)[:300]
