"""Command-stream workloads shared by the checks that run the whole C API."""
import build, gen
from drv import U, C, OPT, cps


def init(h, which='full'):
    d = {'full': ('fi-x-full', build.dict_full), 'svfst': ('fi-x-svfst', build.dict_svfst)}.get(which) or ('fi-x-' + which, build.dict_more)
    return 'init\t%d\t%s\t%s' % (h, OPT(d[0]), OPT(d[1]()))


MORE = ('swap', 'sswap', 'ids', 'null', 'err', 'bare', 'nospell')


def pick(i, m=8):
    """the dictionary of shard i: mostly the full lexicon, one in m each the weighted one and one of the others"""
    return 'svfst' if i % m == m - 1 else MORE[i // m % len(MORE)] if i % m == m // 2 else 'full'


def nz(s):
    return s.replace('\0', '')


def query(r, h, utf8=0.4, bad=0.2, hostile=0.25, big=0.02, heavy=True):
    """one random query on handle h"""
    k = r.random()
    if k < 0.5:
        w = nz(gen.word(r, hostile))
        op = r.choice(('sp', 'sg', 'hy', 'an', 'sp', 'hy', 'an', 'ih', 'hold')) if heavy else r.choice(('sp', 'hy', 'an'))
        if op == 'ih':
            b = gen.bad_utf8(r, w) if r.random() < bad else w.encode('utf-8', 'surrogatepass')
            return 'ih\t%d\t%s\t%s\t%d' % (h, C(b), C(r.choice((b'-', '\u00ad'.encode(), b'&shy;', b'', b'==', b'\xff'))), r.randrange(2))
        if op == 'hold':
            return r.choice(('hsg', 'hsc', 'hhy', 'han', 'han', 'rel')).replace('hsc', 'hsg') + '\t%d\t%s' % (h, U(w))
        if r.random() < utf8:
            b = gen.bad_utf8(r, w) if r.random() < bad else w.encode('utf-8', 'surrogatepass')
            return '%sC\t%d\t%s' % (op, h, C(b))
        return '%sU\t%d\t%s' % (op, h, U(w))
    t = gen.big_text(r) if r.random() < big else gen.text(r)
    op = r.choice(('tk', 'st', 'ga', 'tk1', 'st1', 'gr', 'ga', 'hgr'))
    if op == 'hgr':
        return 'hgr\t%d\t%s\t%d' % (h, U(t), r.randrange(3))
    suffix = ''
    if op == 'gr':
        suffix = '\t%d\t%d\t%s' % (r.randrange(0, 30), r.randrange(0, 5), r.choice(('fi', 'en', 'xx', 'en_US', 'fi_FI')))
    elif op == 'ga' and r.random() < 0.3:
        suffix = '\t' + r.choice(('fi', 'en'))
    if r.random() < utf8:
        b = gen.bad_utf8(r, t) if r.random() < bad else t.encode('utf-8', 'surrogatepass')
        return '%sC\t%d\t%s%s' % (op, h, C(b), suffix)
    if op == 'tk' and r.random() < 0.3:
        return 'tkX\t%d\t%s' % (h, U(t))
    return '%sU\t%d\t%s%s' % (op, h, U(t), suffix)


def option(r, h, cache=True):
    if r.random() < 0.8:
        return 'bo\t%d\t%d\t%d' % (h, r.choice(gen.BOOL_OPTS), r.randrange(2))
    if r.random() < 0.2:
        return r.choice(('bo\t%d\t%d\t1', 'io\t%d\t%d\t3')) % (h, r.choice((-1, 2, 5, 18, 99)))
    return 'io\t%d\t%d\t%d' % ((h,) + r.choice(((9, r.choice((-2, 0, 1, 2, 3, 5, 8, 12, 300))), (17, r.randrange(-2, 5)))))


def misc(r, h):
    k = r.randrange(5)
    if k == 0:
        return 'av\t%d\t%s' % (h, r.choice(('CLASS', 'SIJAMUOTO', 'NUMBER', 'PERSON', 'MOOD', 'TENSE', 'COMPARISON', 'NEGATIVE',
                                            'PARTICIPLE', 'POSSESSIVE', 'NOSUCH', '', 'BASEFORM')))
    if k == 1:
        return 'em\t%d\t%s' % (r.randrange(-1, 25), r.choice(('fi', 'en', 'xx', '', 'en_US')))
    if k == 2:
        return r.choice(('ld', 'ls', 'lh', 'lg')) + '\t' + OPT(r.choice((None, build.dict_full(), '/nonexistent', '')))
    if k == 3:
        return 'rel\t%d' % h
    return 'ver'


FILL = ['a', 'ä', '\ufb01', '\ufb03', '-', '.', '\u00ad', "'", '1', 'A', '=', 'a\u0308', 'aa-', 'o\u030c', 'ei', 'A-', 'ß', '\U0001f642', ':', '\u2019']
LENS = list(range(0, 9)) + [31, 32, 33, 49, 50, 51, 52, 99, 100, 101, 126, 127, 128, 129, 199, 200, 201] + list(range(251, 260)) + [300, 511, 512, 513, 1030]


def grid_words():
    """every boundary length with every kind of filling, and with a real word at either end"""
    for n in LENS:
        for f in FILL:
            s = (f * (n // len(f) + 1))[:n]
            yield s
            if n > 6 and f in ('a', '-', '\ufb01', '\u00ad', 'a\u0308', 'A'):
                yield s[:n - 5] + 'kissa'
                yield 'kissa' + s[5:]
                yield s[:n - 1] + '.'
