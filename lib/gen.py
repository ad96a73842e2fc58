"""Workload generators: words and texts, from ordinary Finnish to hostile. Everything is driven by one seeded Random."""
import os, random, unicodedata
import build, vfst

CORPUS = os.path.join(build.VERIF, 'corpus')
_cache = {}


def corpus_words():
    if 'w' not in _cache:
        with open(CORPUS + '/words.txt', encoding='utf-8') as f:
            _cache['w'] = [l.rstrip('\n') for l in f if l.strip()]
    return _cache['w']


def corpus_texts():
    if 't' not in _cache:
        with open(CORPUS + '/texts.txt', encoding='utf-8') as f:
            _cache['t'] = [l.rstrip('\n') for l in f if l.strip()]
    return _cache['t']


def lexicon():
    if 'f' not in _cache:
        _cache['f'] = vfst.read_vfst(build.DEBIAN_MOR)
    return _cache['f']


LIG = '\ufb00\ufb01\ufb02\ufb03\ufb04'
VOW = 'aeiouyäöåAEIOUYÄÖÅ'
CONS = 'bcdfghjklmnpqrstvwxzšž'
LET = 'abcdefghijklmnopqrstuvwxyzåäöšž'
PUNCT = '.,:;!?"\'()[]{}/&%#*+=<>|_~^`@$§½°«»”’“‘‐‑–—…−\u2019\u201d'
SPACES = ' \t\n\r\u00a0\u2002\u2003\u3000\u202f\ufeff\u0085\v\f'
HYPH = '-\u2010\u2011\u00ad'
MARKS = '\u0300\u0301\u0302\u0303\u0308\u030a\u030c\u0327\u0328\u0304\u0306'
ODD = 'ßøæœłđħŋþðıſﬅĳǆΩωабвЯЖ漢字가🙂𝐀\u200b\u200d\ufffd\uffff\ufffe\U0010ffff\U0001fffe\U00010400\u0001\u001b\u007fªº²³¹€'
ALL = LET + LET.upper() + PUNCT + SPACES + HYPH + MARKS + LIG + ODD + '0123456789'


def ext_char(rng):
    """any interesting code point"""
    r = rng.random()
    if r < 0.7:
        return rng.choice(ALL)
    if r < 0.85:
        return chr(rng.randrange(0x20, 0x600))
    while True:
        c = rng.randrange(1, 0x110000)
        if not 0xD800 <= c < 0xE000:
            return chr(c)


def recase(rng, w):
    k = rng.randrange(6)
    if k == 0:
        return w.upper() if len(w.upper()) == len(w) else w
    if k == 1:
        return w[:1].upper() + w[1:]
    if k == 2:
        return w.lower()
    if k == 3:
        return ''.join(c.upper() if rng.random() < 0.4 and len(c.upper()) == 1 else c for c in w)
    if k == 4 and len(w) > 2:
        i = rng.randrange(1, len(w))
        return w[:i] + w[i].upper() + w[i + 1:] if len(w[i].upper()) == 1 else w
    return w[:1].upper() + w[1:].lower()


def edit(rng, w, alphabet=LET):
    k = rng.randrange(9)
    if not w:
        return rng.choice(alphabet)
    i = rng.randrange(len(w))
    if k == 0:
        return w[:i] + w[i + 1:]
    if k == 1:
        return w[:i] + rng.choice(alphabet) + w[i:]
    if k == 2:
        return w[:i] + rng.choice(alphabet) + w[i + 1:]
    if k == 3 and i + 1 < len(w):
        return w[:i] + w[i + 1] + w[i] + w[i + 2:]
    if k == 4:
        return w[:i] + w[i] + w[i:]
    if k == 5:
        return w[:i] + '-' + w[i:]
    if k == 6:
        return w.replace('-', '') if '-' in w else w[:i] + ' ' + w[i:]
    if k == 7 and i + 2 < len(w):
        return w[:i] + w[i + 2:]
    m = {'ä': 'a', 'ö': 'o', 'a': 'ä', 'o': 'ö', 's': 'š', 'z': 'ž', 'w': 'v', 'v': 'w', 'c': 'k', 'k': 'g', 'd': 't', 'p': 'b'}
    return w[:i] + m.get(w[i], w[i]) + w[i + 1:]


def denorm(rng, w):
    """an equivalent spelling under the input normalisation: decomposed letters, ligatures, hyphen/apostrophe variants"""
    out = []
    i = 0
    while i < len(w):
        for lig, l in (('ﬃ', 'ffi'), ('ﬄ', 'ffl'), ('ﬀ', 'ff'), ('ﬁ', 'fi'), ('ﬂ', 'fl')):
            if w.startswith(l, i) and rng.random() < 0.7:
                out.append(lig)
                i += len(l)
                break
        else:
            c = w[i]
            d = unicodedata.normalize('NFD', c)
            if len(d) == 2 and d[0] in LET + LET.upper() and rng.random() < 0.6:
                out.append(d)
            elif c == '-' and rng.random() < 0.3:
                out.append(rng.choice('\u2010\u2011'))
            elif c == "'" and rng.random() < 0.3:
                out.append('\u2019')
            else:
                out.append(c)
            i += 1
    return ''.join(out)


SPECIAL = ('pop-opisto syy-silta syys-ilta ja-sana ehkä-vastaus kunnossa-merkki rock-ock-konsertti puu-ukko linja-auto auto-onni '
           'Itä-Suomi EU-Suomi kissa-niminen Matti-niminen -niminen ääni-ilmiö kala-alus hai-istutus Ikaalis-ten maa-ala vaa\'an rei\'itys '
           'i\'issä esim. eKr. klo. KLO Ks. ks jne. TV:n TV:ssä EU:hun EU:n kHz khz KHZ mm:lle 5-vuotias 12:n 3,5 2.4.2020 1.- XIV '
           'Vaasa-lehti A-rappu a-rappu F1-kisa d-vitamiini D-vitamiini WWW-sivu nais-ihminen pitkä-aikainen työ-ura syy-yhteys yö-öljy '
           'opp-oppi olut-uttu ruis-uistin jalka-alku öljy-yhtiö Pohjois-Suomella Isolla-Britannialla Uudessa-Seelannissa').split()
FREE_TAILS = 'sana merkki vastaus niminen kysymys tyyppi opisto lause kirjain ilmaus henki teksti tekijä mies'.split()


def special_word(rng):
    """words for the rarer paths of the speller: free second parts, repeated syllables at a hyphen, ambiguous compounds"""
    k = rng.random()
    if k < 0.45:
        return rng.choice(SPECIAL)
    w = base_word(rng, False)
    if k < 0.8:
        return w + '-' + rng.choice(FREE_TAILS) + rng.choice(('', '', 'n', 'ssa', '.'))
    v = base_word(rng, False)
    if k < 0.9 and len(w) > 2:
        return w + '-' + w[-2:] + v
    i = rng.randrange(1, len(w)) if len(w) > 1 else 0
    return w[:i] + '-' + w[i:] + v


def base_word(rng, special=True):
    r = rng.random()
    if special and r < 0.04:
        return special_word(rng)
    if r < 0.5:
        return rng.choice(corpus_words())
    f = lexicon()
    if r < 0.75:
        w = f.walk_tag(rng, rng.choice(sorted(f.tagged())))
    else:
        w = f.walk(rng, rng.choice((6, 10, 15, 30)))
    return w or rng.choice(corpus_words())


def word(rng, hostile=0.25):
    """one word-like string (may contain anything when hostile)"""
    r = rng.random()
    if r < hostile:
        return hostile_word(rng)
    w = base_word(rng)
    r = rng.random()
    if r < 0.35:
        pass
    elif r < 0.5:
        w = recase(rng, w)
    elif r < 0.65:
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            w = edit(rng, w)
    elif r < 0.72:
        w = denorm(rng, w)
    elif r < 0.77:
        w = w + rng.choice(('.', '.', '..', ':n', '-', '!', "'n", '\u2019n'))
    elif r < 0.85:
        w = w + rng.choice(('', '', '-', '\u2011', '\u00ad', '=', "'")) + base_word(rng)
    elif r < 0.89:
        w = rng.choice(('-', '\u2010', '(', '1', '12-', 'EU-', 'k', 'A-', '"')) + w
    elif r < 0.93:
        i = rng.randrange(len(w) + 1)
        w = w[:i] + rng.choice(('\u00ad', '-', "'", '\u2019', rng.choice('0123456789'), ':', '.')) + w[i:]
    else:
        w = recase(rng, edit(rng, denorm(rng, w)))
    return w


def hostile_word(rng):
    r = rng.randrange(16)
    if r == 0:
        return ''
    if r == 1:
        return ext_char(rng)
    if r == 2:
        return rng.choice(LET) + rng.choice(MARKS)
    if r == 3:
        n = rng.choice((2, 3, 5, 49, 50, 51, 99, 100, 101, 127, 128, 254, 255, 256, 257, 300, 600))
        return rng.choice(LET + LIG + '-.1\u00ad') * n
    if r == 4:
        return ''.join(rng.choice(LET) for _ in range(rng.choice((2, 3, 4, 6, 10, 20, 60))))
    if r == 5:
        return ''.join(ext_char(rng) for _ in range(rng.choice((1, 2, 3, 4, 6, 10, 20, 60))))
    if r == 6:
        return ''.join(rng.choice(VOW + VOW + CONS + "'-=") for _ in range(rng.choice((2, 3, 4, 5, 8, 15))))
    if r == 7:
        return ''.join(rng.choice(LIG + 'aä' + MARKS) for _ in range(rng.choice((1, 2, 3, 5, 90, 130))))
    if r == 8:
        return rng.choice(('http://', 'https://', 'www.', 'HTTP://', 'ftp://')) + ''.join(
            rng.choice(LET + '0123456789./-_?=&%#~:@,;!') for _ in range(rng.choice((0, 1, 5, 20, 60))))
    if r == 9:
        return ''.join(rng.choice(LET + '0123456789.-_+') for _ in range(rng.choice((0, 1, 5, 20, 49, 60)))) + \
            rng.choice(('@', '@@', '@.', '')) + ''.join(rng.choice(LET + '.-') for _ in range(rng.choice((0, 1, 5, 20)))) + \
            rng.choice(('.fi', '.', '', '.com.'))
    if r == 10:
        return ''.join(rng.choice('0123456789.,:-/%') for _ in range(rng.choice((1, 2, 5, 10, 30))))
    if r == 11:
        return ''.join(rng.choice(PUNCT + HYPH) for _ in range(rng.choice((1, 2, 3, 5))))
    if r == 12:
        w = base_word(rng)
        k = rng.choice((253, 254, 255, 256)) - len(w)
        return (base_word(rng) * 60)[:max(k, 0)] + w
    if r == 13:
        return '-'.join(base_word(rng) for _ in range(rng.choice((2, 3, 5, 8))))
    if r == 14:
        return base_word(rng).upper() + ':' + rng.choice(('n', 'ssa', 'hun', ''))
    w = base_word(rng)
    return rng.choice(('', '-', '.', "'")) + w[:rng.randrange(1, 4)] + rng.choice(('', '-', '.', "'", MARKS[0], LIG[0]))


def sentence(rng):
    n = rng.choice((1, 2, 3, 4, 6, 9, 14))
    ws = []
    for _ in range(n):
        w = word(rng, 0.06) if rng.random() < 0.5 else rng.choice(corpus_words())
        ws.append(w)
    if rng.random() < 0.25 and ws:
        k = rng.randrange(len(ws))
        ws.insert(k, ws[k])
    s = ''
    for k, w in enumerate(ws):
        if k:
            s += rng.choice((' ', ' ', ' ', ' ', ' ', ', ', ' , ', '  ', '\t', ' \u2013 ', '; ', ': ', ' (', ') ', ' "', '" ', ',', '\u00a0', '/', ' - '))
        s += w
    if rng.random() < 0.7:
        s = s[:1].upper() + s[1:]
    return s + rng.choice(('.', '.', '.', '!', '?', '...', '', ',', '."', '.)', '\u2026', ' .', '?!', ':', '.1', '.[1]'))


def text(rng, big=False):
    r = rng.random()
    if r < 0.28:
        t = rng.choice(corpus_texts())
        if rng.random() < 0.5:
            t = mutate_text(rng, t)
        return t
    if r < 0.5:
        return ' '.join(rng.choice(corpus_texts()) if rng.random() < 0.5 else sentence(rng) for _ in range(rng.choice((2, 2, 3, 5))))
    if r < 0.8:
        return rng.choice((' ', '  ', '\n', ' ', ' ', '')).join(sentence(rng) for _ in range(rng.choice((1, 1, 2, 3, 4))))
    if r < 0.9:
        return ''.join(ext_char(rng) for _ in range(rng.choice((0, 1, 2, 3, 5, 10, 30, 60))))
    if r < 0.95:
        return ''.join(rng.choice((word(rng), rng.choice(PUNCT), rng.choice(SPACES), rng.choice(HYPH), ' ')) for _ in range(rng.choice((2, 5, 10, 20))))
    return mutate_text(rng, rng.choice(corpus_texts()), 8)


def mutate_text(rng, t, n=None):
    for _ in range(n or rng.choice((1, 1, 2, 4))):
        k = rng.randrange(7)
        i = rng.randrange(len(t) + 1)
        if k == 0:
            t = t[:i] + ext_char(rng) + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        elif k == 2:
            j = rng.randrange(len(t) + 1)
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
        elif k == 3:
            t = t[:i] + rng.choice(PUNCT + SPACES + HYPH) + t[i:]
        elif k == 4:
            t = t[:i] + t[i:i + 1].swapcase() + t[i + 1:] if len(t[i:i + 1].swapcase()) <= 1 else t
        elif k == 5:
            t = t[:i]
        else:
            t = t[:i] + ' ' + word(rng) + ' ' + t[i:]
    return t


def big_text(rng):
    """paragraphs at the internal limits"""
    k = rng.randrange(7)
    if k == 0:
        return ' '.join('Sana.' for _ in range(rng.choice((199, 200, 201, 250))))
    if k == 1:
        return 'Sana ' + ' '.join('sana' for _ in range(rng.choice((248, 249, 250, 251, 300)))) + '.'
    if k == 2:
        return 'a' * rng.choice((255, 256, 1000, 5000)) + '.'
    if k == 3:
        return '.' * rng.choice((10, 499, 500, 501, 1000))
    if k == 4:
        return ' ' * rng.choice((10, 1000)) + 'Sana' + ' ' * rng.choice((10, 1000))
    if k == 5:
        return '"' * rng.choice((1, 499, 501)) + 'Sana' + '"' * 3
    return ' '.join(sentence(rng) for _ in range(rng.choice((20, 60, 120))))


def bad_utf8(rng, s):
    """bytes that are often not UTF-8"""
    b = bytearray(s.encode('utf-8'))
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(6)
        if k == 0:
            b[i:i] = bytes([rng.randrange(128, 256)])
        elif k == 1:
            del b[i:i + 1]
        elif k == 2:
            b = b[:i]
        elif k == 3:
            b[i:i] = rng.choice((b'\xed\xa0\x80', b'\xc0\x80', b'\xf4\x90\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe', b'\xe2\x82', b'\xf0\x9f\x99', b'\xc3', b'\xef\xbf\xbe'))
        elif k == 4 and i < len(b):
            b[i] = rng.randrange(128, 256)
        else:
            b += bytes([rng.choice((0xc3, 0xe2, 0xf0, 0x80, 0xbf))])
    return bytes(x for x in b if x)


BOOL_OPTS = (0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16)
BOOL_DEFAULT = {0: 0, 1: 0, 3: 0, 4: 0, 6: 1, 7: 1, 8: 0, 10: 1, 11: 0, 12: 0, 13: 0, 14: 0, 15: 1, 16: 0}
