"""Word workloads for the checks that compare answers with the reference models, and the shared lexicon model."""
import build, finnish, gen, model

_F = {}


def lex():
    if 'f' not in _F:
        _F['f'] = finnish.Finnish(build.DEBIAN_MOR)
    return _F['f']


SUFF = ['n', 'ssa', 'sta', 'lla', 'ko', 'kin', 'kaan', 'ni', 'nsa', 'mme', 't', 'ja', 'isten']


def compound(r):
    n = r.choice((2, 2, 2, 3, 4))
    return r.choice(('', '', '', '-', '-')).join(gen.base_word(r) for _ in range(n))


def word(r, clean=0.55):
    """mostly words the lexicon knows or nearly knows"""
    k = r.random()
    if k < clean:
        w = gen.base_word(r)
    elif k < clean + 0.1:
        w = compound(r)
    elif k < clean + 0.12:
        w = tag_compound(r)
    elif k < clean + 0.2:
        w = lex().lex.fst.walk(r, r.choice((3, 6, 12, 25, 60))) or 'ja'
    else:
        w = gen.word(r, 0.2)
    k = r.random()
    if k < 0.12:
        w = gen.recase(r, w)
    elif k < 0.16:
        w = w + '.'
    elif k < 0.2 and len(w) > 2:
        i = r.randrange(1, len(w))
        w = w[:i] + r.choice(('-', finnish.SHY, '-', finnish.SHY, "'")) + w[i:]
    elif k < 0.22:
        w = r.choice(('-', '')) + w + r.choice(('-', ''))
    return w.replace('\0', '').replace('\uffff', '').replace('\ufffe', '')


def syllables(r):
    """vowel and consonant clusters for the syllable rules"""
    n = r.choice((2, 3, 4, 5, 6, 8, 10, 14))
    a = r.choice(("aeiouyäö", "aeiouyäökstn", "aeiouyäöbcdfghjklmnpqrstvwxzšž", "aiekt'", "aie.-ts", "shtzšžaei", "AEIOUaeioukst", "aeiåéu1k", "ieai", "aa'-k:/.&%"))
    return ''.join(r.choice(a) for _ in range(n))


def cased(st, w):
    """the word with the capitals its structure asks for"""
    out, j = list(w), 0
    for i in range(len(w)):
        while j < len(st) and st[j] == '=':
            j += 1
        if j >= len(st):
            break
        if st[j] in 'ij':
            out[i] = model.upper(out[i])
        elif st[j] in 'pq':
            out[i] = model.lower(out[i])
        j += 1
    return ''.join(out)


def capitals(r, n):
    """words whose correct form has capital letters, most of them after the first letter"""
    out, tries = [], 0
    while len(out) < n and tries < 60 * n:
        tries += 1
        if tries % 2:
            w = model.lowers(r.choice(gen.corpus_words()))
        else:
            w = lex().lex.fst.walk(r, r.choice((4, 8, 14, 25))) or ''
        if tries % 5 == 0 and out:
            w = r.choice((w + '-' + model.lowers(r.choice(out)), model.lowers(r.choice(out)) + '-' + w, model.lowers(r.choice(out)) + r.choice((':n', ':ssa', '-', ':ta'))))
        for a in lex().lex.analyse(w) or ():
            c = cased(a['STRUCTURE'], w)
            if c[1:] != model.lowers(c[1:]) or (c != w and tries % 8 == 0):
                out.append(c)
                break
    return out


def by_tag(r, tag=None):
    """a word with a given (or any, rare ones as often as common ones) output tag of the dictionary on its path"""
    f = lex().lex.fst
    return f.walk_tag(r, tag or r.choice(sorted(f.tagged()))) or 'ja'


def tag_compound(r):
    """compounds of words chosen by their tags"""
    return r.choice(('-', '-', '-', '', ' ')).join(by_tag(r) for _ in range(r.choice((2, 2, 2, 3))))
