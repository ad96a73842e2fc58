"""Reference models: what the documented rules say, written down independently of the implementation's structure.

Characters, normalisation, tokens and sentences."""

# ---------------------------------------------------------------- characters
_PAIRS = {}


def _pairs(lo, hi, step, delta):
    for c in range(lo, hi + 1, step):
        _PAIRS[c] = c + delta


_pairs(0x41, 0x5A, 1, 0x20)          # A-Z
_pairs(0xC0, 0xD6, 1, 0x20)
_pairs(0xD8, 0xDE, 1, 0x20)
_pairs(0x100, 0x136, 2, 1)
_pairs(0x139, 0x147, 2, 1)
_pairs(0x14A, 0x176, 2, 1)
_pairs(0x179, 0x17D, 2, 1)
_pairs(0x1DE, 0x1EE, 2, 1)
_pairs(0x1F8, 0x21E, 2, 1)
_pairs(0x1B7, 0x1B7, 1, 0x292 - 0x1B7)
_pairs(0x400, 0x40F, 1, 0x50)
_pairs(0x410, 0x42F, 1, 0x20)
_pairs(0x460, 0x480, 2, 1)
_pairs(0x48A, 0x526, 2, 1)
LOWER = {chr(a): chr(b) for a, b in _PAIRS.items()}
UPPER = {v: k for k, v in LOWER.items()}


def lower(c):
    return LOWER.get(c, c)


def upper(c):
    return UPPER.get(c, c)


def lowers(s):
    return ''.join(LOWER.get(c, c) for c in s)


def uppers(s):
    return ''.join(UPPER.get(c, c) for c in s)


def is_upper(c):
    return c in LOWER or c == '\u018f'


def is_lower(c):
    return c in UPPER


def is_digit(c):
    return '0' <= c <= '9'


WS = set('\t\n\v\f\r \u0085\u00a0\u1680\u180e\u2028\u2029\u202f\u205f\u3000') | {chr(c) for c in range(0x2000, 0x200B)}


def is_space(c):
    return c in WS


LETTER, DIGIT, SPACE, PUNCT, UNKNOWN = 'L', 'D', 'S', 'P', 'U'
QUOTES = '"\u00bb\u201d'
PUNCTS = set(".,;-!?:'()[]{}/&\u00ad\u2019\u2010\u2011\u2013\u2014\u201c\u2026" + QUOTES)
_LET = ((0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2AF), (0x400, 0x481), (0x48A, 0x527), (0x1400, 0x15C3), (0xFB00, 0xFB04))
_ct = {}


def ctype(c):
    t = _ct.get(c)
    if t is None:
        o = ord(c)
        if any(a <= o <= b for a, b in _LET):
            t = LETTER
        elif c in WS:
            t = SPACE
        elif c in PUNCTS or c == '\0':
            t = PUNCT
        elif '0' <= c <= '9':
            t = DIGIT
        else:
            t = UNKNOWN
        _ct[c] = t
    return t


# ---------------------------------------------------------------- normalisation
COMPOSE = {}
for _base, _marks in (('A', '\u0300\u0301\u0302\u0303\u0308\u030a'), ('C', '\u0327'), ('E', '\u0300\u0301\u0302\u0308'),
                      ('I', '\u0300\u0301\u0302\u0308'), ('N', '\u0303'), ('O', '\u0300\u0301\u0302\u0303\u0308'),
                      ('U', '\u0300\u0301\u0302\u0308'), ('Y', '\u0301'),
                      ('a', '\u0300\u0301\u0302\u0303\u0308\u030a'), ('c', '\u0327'), ('e', '\u0300\u0301\u0302\u0308'),
                      ('i', '\u0300\u0301\u0302\u0308'), ('n', '\u0303'), ('o', '\u0300\u0301\u0302\u0303\u0308'),
                      ('u', '\u0300\u0301\u0302\u0308'), ('y', '\u0301\u0308'), ('S', '\u030c'), ('s', '\u030c'), ('Z', '\u030c'), ('z', '\u030c'),
                      ('\u0418', '\u0306'), ('\u0438', '\u0306'), ('\u0415', '\u0300\u0308'), ('\u0435', '\u0300\u0308'),
                      ('\u0413', '\u0301'), ('\u0433', '\u0301'), ('\u041e', '\u0308'), ('\u043e', '\u0308')):
    import unicodedata as _u
    for _m in _marks:
        _c = _u.normalize('NFC', _base + _m)
        assert len(_c) == 1, (_base, _m)
        COMPOSE[_base + _m] = _c
SINGLE = {'\u2019': "'", '\u2010': '-', '\u2011': '-', '\u2103': '\u00b0C', '\u2109': '\u00b0F',
          '\ufb00': 'ff', '\ufb01': 'fi', '\ufb02': 'fl', '\ufb03': 'ffi', '\ufb04': 'ffl'}


def normalise_map(w):
    """(normalised word, for each normalised character the index of the first and last original character it came from)"""
    out, org, i = [], [], 0
    while i < len(w):
        two = w[i:i + 2]
        if two in COMPOSE:
            out.append(COMPOSE[two])
            org.append((i, i + 1))
            i += 2
            continue
        for ch in SINGLE.get(w[i], w[i]):
            out.append(ch)
            org.append((i, i))
        i += 1
    return ''.join(out), org


def normalise(w):
    return normalise_map(w)[0]


# ---------------------------------------------------------------- letter case of a word
NO_LETTERS, ALL_LOWER, FIRST_UPPER, COMPLEX, ALL_UPPER = 'none', 'lower', 'first', 'complex', 'upper'


def casetype(w):
    ups = [is_upper(c) for c in w]
    lows = [is_lower(c) for c in w]
    if not any(ups) and not any(lows):
        return NO_LETTERS
    if not any(lows):
        return ALL_UPPER
    if any(ups[1:]):
        return COMPLEX
    return FIRST_UPPER if ups[0] else ALL_LOWER


# ---------------------------------------------------------------- tokens
NONE, WORD, PUNCTUATION, WHITESPACE, UNK = 0, 1, 2, 3, 4
MAIL_UNKNOWN = '#$%*+=^_`|~'
MAIL_PUNCT = "!&'-/?{}."


def _address(t):
    """length of the URL or e-mail address at the start of t, or 0"""
    n = len(t)
    if n >= 12 and (t.startswith('http://') or t.startswith('https://')):
        i = 8 if t[4] == 's' else 7
        while i < n:
            k = ctype(t[i])
            if k == SPACE or (k == UNKNOWN and t[i] not in '=#%'):
                return i
            if t[i] == '.' and (i + 1 == n or ctype(t[i + 1]) == SPACE):
                return i
            i += 1
        return n
    if n < 6:
        return 0
    at = dot = False
    for i, c in enumerate(t):
        k = ctype(c)
        if k in (LETTER, DIGIT):
            continue
        if c == '@':
            if at:
                return 0
            at = True
            continue
        if c == '.' and at:
            if i + 1 == n or ctype(t[i + 1]) == SPACE:
                return i if dot else 0
            dot = True
            continue
        if (k == UNKNOWN and c in MAIL_UNKNOWN) or (k == PUNCT and c in MAIL_PUNCT and c != '\0') or (c == '\0' and k == PUNCT):
            continue
        return i if at and dot else 0
    return n if at and dot else 0


def word_length(t, keep_dot):
    a = _address(t)
    if a:
        return a
    n, i, number, letters = len(t), 0, False, False
    while i < n:
        c = t[i]
        k = ctype(c)
        if k == LETTER:
            number, letters = False, True
        elif k == DIGIT:
            number = True
        elif k in (SPACE, UNKNOWN):
            return i
        else:
            nxt = ctype(t[i + 1]) if i + 1 < n else None
            if c in "'\u2019:":
                if nxt != LETTER:
                    return i
            elif c in '-\u00ad\u2010\u2011':
                if nxt is None or t[i + 1] in QUOTES or nxt in (SPACE, UNKNOWN):
                    return i + 1
                if nxt == PUNCT:
                    return i + 1 if t[i + 1] == ',' else i
            elif c == '.':
                if nxt is None or nxt in (SPACE, UNKNOWN, PUNCT) or (nxt == DIGIT and letters):
                    return i + (1 if keep_dot else 0)
            elif c == ',':
                if not number or nxt != DIGIT:
                    return i
            else:
                return i
        i += 1
    return n


def next_token(t, keep_dot=False):
    """(type, length) of the first token"""
    if not t:
        return NONE, 0
    k = ctype(t[0])
    if k in (LETTER, DIGIT):
        return WORD, word_length(t, keep_dot)
    if k == SPACE:
        i = 1
        while i < len(t) and ctype(t[i]) == SPACE:
            i += 1
        return WHITESPACE, i
    if k == PUNCT:
        if t[0] in '-\u2010\u2011' and len(t) > 1:
            n = word_length(t[1:], keep_dot)
            if n:
                return WORD, n + 1
        if t.startswith('...'):
            return PUNCTUATION, 3
        return PUNCTUATION, 1
    return UNK, 1


def tokens(t, keep_dot=False):
    out, p = [], 0
    while p < len(t):
        ty, n = next_token(t[p:], keep_dot)
        out.append((ty, n))
        p += n
    return out


# ---------------------------------------------------------------- sentences
S_NONE, S_NO_START, S_PROBABLE, S_POSSIBLE = 0, 1, 2, 3


def dot_belongs(word, accepted):
    """does the period at the end of word belong to it (initial, ordinal or date, abbreviation)?"""
    if len(word) < 2:
        return False
    if len(word) == 2 and is_upper(word[0]):
        return True
    if all(c in '.-' or is_digit(c) for c in word[:-1]):
        return True
    return accepted(word)


def next_sentence(t, accepted):
    """(type, length). accepted(word with period) says whether the dictionary knows it as such."""
    p, prev, prev_start = 0, NONE, 0
    ended = quoted = dotword = maybe = False
    while p < len(t):
        ty, n = next_token(t[p:], False)
        if ended and not quoted and ty != WHITESPACE:
            if dotword or maybe or (prev != WHITESPACE and ty == WORD):
                return S_POSSIBLE, p
            return S_PROBABLE, p
        if ty == PUNCTUATION:
            c = t[p]
            if c in '!?':
                ended = True
                if quoted:
                    maybe = True
            elif (c == '.' and n == 3) or c == '\u2026':
                ended = maybe = True
            elif c == '.':
                ended = True
                if p and prev == WORD and dot_belongs(t[prev_start:p + 1], accepted):
                    dotword = True
            elif c == ':':
                ended = maybe = True
            elif c in QUOTES or c == '\u201c':
                quoted = not quoted
                if not quoted and t[p + 1:p + 2] == ',':
                    ended = maybe = False
        prev, prev_start = ty, p
        p += n
    return S_NONE, len(t)
