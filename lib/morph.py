"""Reference model of the Finnish morphological reading: what the output tags of the lexicon transducer mean.

From the transducer's output string for a word to the attributes of an analysis (structure, base form, class, ...)."""
from model import lower, upper, lowers, is_upper, is_lower, is_digit
import vfst

VOWELS = set('aeiouyäö')
CONSONANTS = set('bcdfghjklmnpqrstvwxzšž')

CLASS = {'n': 'nimisana', 'l': 'laatusana', 'nl': 'nimisana_laatusana', 'h': 'huudahdussana', 'ee': 'etunimi', 'es': 'sukunimi',
         'ep': 'paikannimi', 'em': 'nimi', 't': 'teonsana', 'a': 'lyhenne', 's': 'seikkasana', 'u': 'lukusana', 'ur': 'lukusana',
         'r': 'asemosana', 'c': 'sidesana', 'd': 'suhdesana', 'k': 'kieltosana', 'p': 'etuliite'}
SIJAMUOTO = {'n': 'nimento', 'g': 'omanto', 'p': 'osanto', 'es': 'olento', 'tr': 'tulento', 'ine': 'sisaolento', 'ela': 'sisaeronto',
             'ill': 'sisatulento', 'ade': 'ulkoolento', 'abl': 'ulkoeronto', 'all': 'ulkotulento', 'ab': 'vajanto', 'ko': 'seuranto',
             'in': 'keinonto', 'sti': 'kerrontosti', 'ak': 'kohdanto'}
COMPARISON = {'c': 'comparative', 's': 'superlative'}
MOOD = {'n1': 'A-infinitive', 'n2': 'E-infinitive', 'n3': 'MA-infinitive', 'n4': 'MINEN-infinitive', 'n5': 'MAINEN-infinitive',
        't': 'indicative', 'e': 'conditional', 'k': 'imperative', 'm': 'potential'}
NUMBER = {'y': 'singular', 'm': 'plural'}
PERSON = {'1': '1', '2': '2', '3': '3', '4': '4'}
TENSE = {'p': 'present_simple', 'i': 'past_imperfective'}
FOCUS = {'kin': 'kin', 'kaan': 'kaan'}
POSSESSIVE = {'1y': '1s', '2y': '2s', '1m': '1p', '2m': '2p', '3': '3'}
NEGATIVE = {'t': 'true', 'f': 'false', 'b': 'both'}
PARTICIPLE = {'v': 'present_active', 'a': 'present_passive', 'u': 'past_active', 't': 'past_passive', 'm': 'agent', 'e': 'negation'}
VALUES = {'CLASS': CLASS, 'NUMBER': NUMBER, 'COMPARISON': COMPARISON, 'FOCUS': FOCUS, 'TENSE': TENSE, 'SIJAMUOTO': SIJAMUOTO, 'MOOD': MOOD,
          'PERSON': PERSON, 'PARTICIPLE': PARTICIPLE, 'NEGATIVE': NEGATIVE, 'POSSESSIVE': POSSESSIVE}
SINGLE_VALUES = {'KYSYMYSLIITE': ['true'], 'MALAGA_VAPAA_JALKIOSA': ['true'], 'POSSIBLE_GEOGRAPHICAL_NAME': ['true'],
                 'REQUIRE_FOLLOWING_VERB': ['A-infinitive', 'MA-infinitive']}


class Odd(Exception):
    """an output the model does not describe"""


def is_valid(s):
    """are the hyphens of a compound where they have to be, and is the combination of parts allowed?"""
    n = len(s)
    before = last = ''
    boundary = present = free = justset = required = missing = proper = noun = False
    i = 0
    while i < n:
        c = s[i]
        if c == '[':
            if i + 2 >= n:
                return False
            if i + 3 < n:
                t = s[i + 1:i + 4]
                if t == 'Isf':
                    free = justset = True
                elif t == 'Icu':
                    boundary, free, required = False, True, True
                elif t == 'Ica':
                    missing = noun = False
                elif t[0] == 'L':
                    if t[1] == 'e':
                        proper, noun = True, False
                    elif t[1] == 'n':
                        noun = True
                elif t[:2] == 'Dg':
                    proper = False
            if s[i + 1] == 'X':
                while i + 3 < n:
                    i += 1
                    if s[i:i + 3] == '[X]':
                        i += 2
                        break
            elif s[i + 1:i + 3] == 'Bh':
                i += 3
                boundary, present = True, False
                if missing:
                    return False
                if required:
                    missing = True
            else:
                i += 1
                while i < n and s[i] != ']':
                    i += 1
        elif c == '-':
            proper = noun = False
            if i + 5 < n and s[i + 1:i + 5] == '[Bh]':
                boundary = present = True
                i += 4
        else:
            if boundary:
                if not last or (before == 'i' and last == 's'):
                    free = True
                if required and present:
                    required = False
                if not (free and present):
                    last = lower(last) if last else last
                    # a border without a character before it counts as needing no hyphen unless the characters agree
                    must = (last == lower(c) and last in VOWELS) or is_digit(last or 'x')
                    if must != present:
                        return False
                boundary = False
                if justset:
                    justset = False
                else:
                    free = False
            before, last = last, c
        i += 1
    return not missing and not (proper and noun)


def structure(s, wlen):
    """one mark per character of the word, with = at the borders of compound parts"""
    out = ['=']
    left, seen, given = wlen, 0, 0
    title = abbr = False
    n = len(s)

    def fill(k):
        nonlocal title
        for _ in range(k):
            if title:
                out.append('j' if abbr else 'i')
                title = False
            else:
                out.append('q' if abbr else 'p')

    def flush():
        nonlocal left
        fill(seen - given)
        if seen - given > left:
            raise Odd(s)
        left -= seen - given
    i = 0
    while i < n:
        c = s[i]
        if c == '[' and i + 2 < n:
            t = s[i + 1:i + 4]
            if i + 3 < n and t[0] == 'B' and t[1] != 'h' and t[2:] == ']':
                if i == 1:
                    out.append('=')
                if seen > given:
                    flush()
                if i != 1 and i + 5 < n and out[-1] != '=':
                    out.append('=')
                i += 3
                seen = given = 0
            elif i + 3 < n and t[0] == 'X' and t[2:] == ']':
                kind = t[1]
                i += 4
                if kind == 'r':
                    title = False
                    while s[i] != '[' and left:
                        out.append(s[i])
                        if s[i] != '=':
                            given += 1
                            if s[i] != '-':
                                left -= 1
                        i += 1
                else:
                    while s[i] != '[':
                        i += 1
                i += 2
            elif i + 3 < n and t[0] == 'L':
                if t[1] == 'e':
                    title, abbr = True, False
                    i += 4
                elif t[1:3] == 'nl':
                    abbr = False
                    i += 4
                elif t[1] == 'a':
                    abbr = True
                    i += 3
                elif t[1] == 'u' and i + 5 < n and (s[i + 3] == 'r' or is_digit(s[i + 4])):
                    abbr = True
                    i += 3
                    if s[i] == 'r':
                        i += 1
                else:
                    abbr = False
                    i += 3
            else:
                while s[i] != ']':
                    i += 1
        elif c == '-':
            if seen > given:
                flush()
                out.append('-')
                seen = given = 0
            elif i:
                if seen == given:
                    out.append('-')
                else:
                    seen += 1
            if left:
                left -= 1
            if len(out) == 1:
                out[0] = '-'
        elif c == ':':
            if seen > given:
                flush()
                seen = given = 0
            abbr = False
            out.append(':')
            if left:
                left -= 1
        else:
            seen += 1
        i += 1
    fill(left)
    return ''.join(out)


def fix_structure(st, s):
    st = list(st)
    n = len(s)
    de, hyphens, j = False, 0, 0
    while j < n:
        if j + 3 < n and s[j] == '[':
            if s[j + 1] == 'D':
                if s[j + 2] == 'g':
                    h = 0
                    for i, c in enumerate(st):
                        if c == 'i':
                            if h == hyphens:
                                st[i] = 'p'
                        elif c == '-':
                            h += 1
                elif s[j + 2] == 'e':
                    de = True
            elif s[j + 1:j + 4] == 'Ln]':
                de = False
        elif s[j] == '-':
            hyphens += 1
            if de:
                up = j == n - 1
                j += 1
                while not up and j + 4 < n:
                    if s[j:j + 5] == '[Lep]':
                        up = True
                    j += 1
                if up:
                    for i, c in enumerate(st):
                        if c in 'ip':
                            st[i] = 'i'
                            return ''.join(st)
        j += 1
    return ''.join(st)


def basic(s):
    """attributes from the tags, read from the end of the word"""
    a = {}
    n = len(s)
    adj = bc = classset = False

    def put(key, table, tag):
        if key not in a and tag in table:
            a[key] = table[tag]

    def const(key, v):
        a.setdefault(key, v)
    i = n - 1
    while i >= 2:
        if s[i] == ']':
            j = i
            while j >= 1:
                j -= 1
                if s[j] == '[':
                    k, tag = s[j + 1], s[j + 2:i]
                    rest = s[j + 2:]
                    cl = a.get('CLASS')
                    if k == 'L':
                        if not classset or s[j + 2] == ']':
                            if rest.startswith('nl'):
                                if adj or a.get('COMPARISON') in ('comparative', 'superlative') or s.startswith('[Lu]'):
                                    const('CLASS', 'laatusana')
                                else:
                                    const('CLASS', 'nimisana_laatusana')
                            else:
                                put('CLASS', CLASS, tag)
                            classset = True
                    elif k == 'N':
                        if cl not in ('etuliite', 'seikkasana'):
                            put('NUMBER', NUMBER, tag)
                    elif k == 'P':
                        put('PERSON', PERSON, tag)
                    elif k == 'S':
                        if cl not in ('etuliite', 'seikkasana'):
                            put('SIJAMUOTO', SIJAMUOTO, tag)
                            if j + 5 < n and rest.startswith('sti'):
                                adj = True
                    elif k == 'T':
                        if cl is None:
                            put('MOOD', MOOD, tag)
                    elif k == 'A':
                        put('TENSE', TENSE, tag)
                    elif k == 'F':
                        if rest.startswith('ko'):
                            const('KYSYMYSLIITE', 'true')
                        else:
                            put('FOCUS', FOCUS, tag)
                    elif k == 'O':
                        put('POSSESSIVE', POSSESSIVE, tag)
                    elif k == 'C':
                        if cl is None:
                            put('COMPARISON', COMPARISON, tag)
                    elif k == 'E':
                        put('NEGATIVE', NEGATIVE, tag)
                    elif k == 'R':
                        if not bc and (cl in (None, 'laatusana') or s.endswith('[Ln]')):
                            put('PARTICIPLE', PARTICIPLE, tag)
                    elif k == 'I':
                        info(a, rest, s)
                    elif k == 'B':
                        if j >= 5 and s[j + 2] == 'c':
                            if not classset and cl is None and (s[j - 1] == '-' or s[j - 5:j] == '-[Bh]'):
                                const('CLASS', 'etuliite')
                                classset = True
                            bc = True
                    break
            if j < 3:
                return a
            i = j
        i -= 1
    return a


def info(a, rest, s):
    cl = a.get('CLASS')
    if rest.startswith('vj'):
        if s[0] != '-':
            a.setdefault('MALAGA_VAPAA_JALKIOSA', 'true')
    elif rest.startswith('ca'):
        if '[Bc]' not in rest and '[Ll]' not in rest and (cl is None or cl.startswith('nimisana')):
            a.setdefault('POSSIBLE_GEOGRAPHICAL_NAME', 'true')
    elif a.get('MOOD') not in ('E-infinitive', 'MINEN-infinitive', 'MA-infinitive') and cl in (None, 'teonsana'):
        if rest.startswith('ra'):
            a.setdefault('REQUIRE_FOLLOWING_VERB', 'A-infinitive')
        elif rest.startswith('rm'):
            a.setdefault('REQUIRE_FOLLOWING_VERB', 'MA-infinitive')


def numeral_base(s):
    n = len(s)
    xp = xr = tag = digits = passed = False
    out, i = [], 0
    while i < n:
        c = s[i]
        if i == 0 and (is_digit(c) or c == '-'):
            digits = True
        if c == '[':
            if digits:
                digits, passed = False, True
            if i + 2 >= n:
                return None
            t4 = s[i:i + 4]
            if i + 6 < n and t4 in ('[Xp]', '[Xj]'):
                i += 3
                xp = True
            elif i + 6 < n and t4 == '[Xr]':
                i += 3
                xr = True
            elif i + 4 == n and t4 == '[Bc]':
                return None
            elif i + 6 < n and t4 == '[Bc]':
                i += 3
                passed = False
            elif i + 6 < n and (t4 in ('[Ln]', '[Ll]') or s[i:i + 5] == '[Lnl]'):
                return None
            elif s[i:i + 3] == '[X]':
                if xp:
                    xp, passed = False, True
                xr = False
                i += 2
            else:
                tag = True
        elif xr:
            pass
        elif tag:
            if c == ']':
                tag = False
        elif xp or digits or not passed or c == '-':
            out.append(c)
        i += 1
    return ''.join(out)


def baseform(s, st):
    n = len(s)
    out = []
    xstart = xbase = xhyph = pos = 0
    xp = xr = tag = skip_de = de = klass = False
    i = 0
    while i < n:
        c = s[i]
        if c == '[':
            if i + 2 >= n:
                return None
            if s[i + 1] == 'X':
                if s[i + 2] == ']':
                    xp = xr = False
                    i += 2
                elif i + 6 < n and s[i + 3] == ']':
                    if s[i + 2] in 'pj':
                        i += 3
                        xp, xstart, xbase, xhyph = True, i + 1, len(out), 0
                    elif s[i + 2] in 'rs':
                        i += 3
                        xr = True
            elif not klass and i + 6 < n and s[i + 1:i + 4] == 'Lu]':
                i += 3
                klass = True
                b = numeral_base(s[i + 1:])
                if b is not None:
                    return ''.join(out) + b
            elif s[i + 1:i + 4] == 'De]':
                de = not skip_de
                i += 3
            else:
                if s[i + 1] == 'L':
                    klass, de = True, False
                    skip_de = i + 3 >= n or (s[i + 2] != 'l' and s[i + 2:i + 4] != 'nl')
                tag = True
        elif xr:
            pass
        elif tag:
            if c == ']':
                tag = False
        elif xp:
            if c == '-':
                xhyph += 1
        else:
            nc = c
            if c == '-':
                if xhyph > 0:
                    xhyph -= 1
                else:
                    if de and xstart and s[i - 2:i] != 'is' and '[Lep]' in s[i:]:
                        del out[xbase:]
                        k = xstart
                        while k < n and s[k] != '[':
                            if s[k] != '=':
                                out.append(upper(s[k]) if k == xstart else s[k])
                            k += 1
                    xstart = 0
                de = False
            while pos < len(st):
                p = st[pos]
                pos += 1
                if p != '=':
                    if p in 'ij':
                        nc = upper(nc)
                    break
            out.append(nc)
        i += 1
    if xstart:
        del out[xbase:]
        k = xstart
        while k < n and s[k] != '[':
            if s[k] != '=':
                out.append(s[k])
            k += 1
    return ''.join(out) or None


def debug(s):
    """(word identifiers or None, word bases)"""
    n = len(s)
    ids, bases, xs, xpb = [], [], [], []
    idlast = baselast = 0
    inxs = inxp = inxj = inx = content = tag = anyxs = False

    def end():
        if xs:
            ids.extend('(w' + ''.join(xs) + ')')
            xs.clear()
        if xpb:
            bases.extend('(' + ''.join(xpb) + ')')
            xpb.clear()
    i = 0
    while i < n:
        c = s[i]
        if s.startswith('[L', i) or s.startswith('-[B', i):
            content, tag = False, True
            end()
            if c == '-':
                ids.extend('+-')
                bases.extend('+-')
                i += 1
        elif c == '[' and i + 2 < n:
            if s[i + 1] == 'X':
                k = s[i + 2]
                if k == 's':
                    inxs = anyxs = True
                    xs.clear()
                    i += 3
                elif k == 'p':
                    inxp = True
                    xpb.clear()
                    i += 3
                elif k == 'j':
                    if content:
                        end()
                        idlast, baselast = len(ids), len(bases)
                    inxj = True
                    xpb.clear()
                    i += 3
                elif k == ']':
                    inxs = inxp = inxj = inx = False
                    i += 2
                else:
                    inx = True
                    i += 3
            else:
                tag = True
        elif c == ']':
            tag = False
        elif tag or inx:
            pass
        elif inxs:
            xs.append(c)
        elif inxp:
            xpb.append(c)
        elif inxj:
            if not xpb:
                xpb.append('+')
            xpb.append(c)
        else:
            if not content:
                ids.append('+')
                bases.append('+')
                idlast, baselast = len(ids), len(bases)
                content = True
            ids.append(c)
            bases.append(c)
        i += 1
    if xpb:
        del bases[baselast:]
        del ids[idlast:]
        if baselast > 0 and xpb[0] == '+' and bases[-1] == '+':
            bases.pop()
            ids.pop()
        x = [c for c in xpb if c != '=']
        bases.extend(x)
        ids.extend(x)
        bases.extend('(' + ''.join(xpb) + ')')
    if xs:
        ids.extend('(w' + ''.join(xs) + ')')
    return (''.join(ids) if anyxs else None), ''.join(bases)


def readings(s, wlen, full=True):
    """the analyses (one, or two for names of organisations) of one transducer output; [] if it is not a word"""
    if not is_valid(s):
        return []
    a = basic(s)
    st = fix_structure(structure(s, wlen), s)
    a['STRUCTURE'] = st
    cl, mood = a.get('CLASS'), a.get('MOOD')
    if 'NEGATIVE' in a and ((cl and cl != 'teonsana') or mood in ('MINEN-infinitive', 'E-infinitive', 'MA-infinitive')):
        del a['NEGATIVE']
    if a.get('PARTICIPLE') == 'past_passive':
        cl = a['CLASS'] = 'laatusana'
    if a.get('SIJAMUOTO') == 'kerrontosti':
        a.pop('NUMBER', None)
    if 'COMPARISON' not in a:
        if cl in ('laatusana', 'nimisana_laatusana'):
            a['COMPARISON'] = 'positive'
    elif cl == 'nimisana':
        del a['COMPARISON']
    out = [a]
    if a.get('CLASS') == 'nimisana' and len(s) >= 13 and s[0] != '-' and not s.startswith('[La]'):
        for i in range(len(s) - 5, 7, -1):
            if s.startswith('[Bc]', i):
                break
            if s.startswith('[Ion]', i):
                if '[Bc]' in s[4:i]:
                    b = dict(a, CLASS='nimi')
                    b.pop('POSSIBLE_GEOGRAPHICAL_NAME', None)
                    b['STRUCTURE'] = st[0] + 'i' + st[2:]
                    bf = baseform(s, b['STRUCTURE'])
                    if bf:
                        b['BASEFORM'] = bf
                    out.append(b)
                    break
    if full:
        a['FSTOUTPUT'] = s
        bf = baseform(s, st)
        if bf:
            a['BASEFORM'] = bf
        i, b = debug(s)
        if i is not None:
            a['WORDIDS'] = i
        a['WORDBASES'] = b
    return out


class Lexicon:
    """readings of words according to a dictionary file"""
    def __init__(self, path):
        self.fst = vfst.read_vfst(path)
        self.cache = {}

    def analyse(self, word, full=False):
        """list of analyses, or None where the reading limits of the library may be involved"""
        key = (lowers(word), full)
        r = self.cache.get(key, 0)
        if r == 0:
            w = key[0]
            if len(w) > 255:
                r = []
            else:
                try:
                    outs = self.fst.lookup(w, 30000)
                    r = None if len(outs) > 95 or any(len(o[0]) > 1900 for o in outs) else [x for o, _ in outs for x in readings(o, len(w), full)]
                except OverflowError:
                    r = None
            if len(self.cache) > 200000:
                self.cache.clear()
            self.cache[key] = r
        return r
