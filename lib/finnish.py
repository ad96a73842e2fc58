"""Reference models of hyphenation and spelling, on top of the readings of morph.Lexicon."""
import model, morph
from model import lower, lowers, is_upper, is_lower, is_digit
from morph import VOWELS, CONSONANTS

SHY = '\u00ad'
OK, CAP_FIRST, CAP_ERROR, FAILED = 0, 1, 2, 3
DEFAULTS = {0: 0, 1: 0, 3: 0, 4: 0, 6: 1, 7: 1, 8: 0, 9: 2, 10: 1, 11: 0, 12: 0, 13: 0, 14: 0, 15: 1, 16: 0}
SPLIT = set('ae ao ea eo ia io oa oe ua ue ye eä eö iä iö yä äe öe'.split())
LONGC = ('shtsh', 'štš', 'tsh', 'tš', 'zh')


class Unknown(Exception):
    """the model makes no statement (internal limits may be involved)"""


def nonword(w):
    """URL or e-mail address"""
    n = len(w)
    if n < 4:
        return False
    i = w.find('/', 0, n - 3)
    if i >= 0 and w[i + 1] == '/' and '.' in w[i + 1:n - 1]:
        return True
    i = w.find('@', 0, n - 3)
    if i >= 0 and w[i + 1] != '.' and '.' in w[i + 1:n - 1]:
        return True
    return n >= 7 and w.startswith('www.') and w[4] != '.' and '.' in w[5:]


class Finnish:
    def __init__(self, path):
        self.lex = morph.Lexicon(path)
        self.scache = {}

    def analyses(self, w):
        r = self.lex.analyse(w)
        if r is None:
            raise Unknown
        return r

    # ------------------------------------------------------------ hyphenation
    def rules(self, w, h, ugly):
        """syllable boundaries inside one part w, on the marks h (a list) of that part"""
        n = len(w)
        if not self.rules_allowed(w, ugly) or h[0] == 'X':
            return
        w = lowers(w)
        v = [c in VOWELS for c in w]
        k = [c in CONSONANTS for c in w]
        i = 0
        while i < n and k[i]:
            i += 1
        # before a consonant and a vowel
        while i <= n - 2:
            if k[i] and v[i + 1] and w[i - 1] not in "/.:&%'":
                h[i] = '-'
            i += 1
        for i in range(1, n - 1):
            if w[i] == "'" and v[i + 1]:
                h[i] = '='

        def good(p):
            if p == 0 or p + 1 >= n:
                return False
            i, a = p - 1, False
            while h[i] not in '-=':
                if i == 0:
                    break
                a = a or v[i]
                i -= 1
            if not a:
                return False
            i = p
            while i < n and h[i] not in '-=':
                if w[i] == '.':
                    return False
                if v[i]:
                    return True
                i += 1
            return False
        # long vowels
        for i in range(1, n - 1):
            if v[i] and w[i] == w[i + 1]:
                if v[i - 1] and good(i):
                    h[i] = '-'
                if good(i + 2):
                    h[i + 2] = '-'
        for i in range(n - 1):
            if h[i + 1] == ' ' and w[i:i + 2] in SPLIT:
                h[i + 1] = '-'
        # consonants that belong together
        for i in range(1, n - 1):
            for lc in LONGC:
                if i + len(lc) < n and w.startswith(lc, i):
                    for j in range(i + 1, i + len(lc) + 1):
                        if h[j] == '-':
                            h[j], h[i] = ' ', '-'
        if not ugly:
            h[1] = ' '
            h[n - 1] = ' '
            for i in range(n - 1):
                if v[i] and v[i + 1]:
                    h[i + 1] = ' '
                if i >= 2 and w[i - 2] == "'" and k[i] and v[i + 1]:
                    h[i] = ' '
        elif n >= 3:
            for i in range(n - 3):
                for two in ('ie', 'ai'):
                    if h[i + 1] != '-' and w.startswith(two, i) and v[i + 2] and good(i + 2):
                        h[i + 2] = '-'

    @staticmethod
    def rules_allowed(w, ugly):
        if len(w) <= 1:
            return False
        return ugly or not (nonword(w) or is_digit(w[-1]))

    def patterns(self, word, ugly=True, unknown=True, minlen=2, ignore_dot=False):
        """one marking per reading"""
        n = len(word)
        ans = self.analyses(word)
        m = n
        if not ans and ignore_dot and n > 1 and word[-1] == '.':
            m = n - 1
            ans = self.analyses(word[:-1])
        if len(ans) > 31:
            raise Unknown
        res = []
        for a in ans:
            st = a['STRUCTURE']
            h = [' '] * n
            p = 1 if st[:1] == '=' else 0
            for i in range(m):
                c = st[p:p + 1]
                if not c:
                    break
                if st[p:p + 2] == '-=':
                    if i and word[i] == '-':
                        h[i] = '='
                    p += 2
                elif c == '=':
                    h[i] = '-'
                    p += 2
                else:
                    if c in 'jq':
                        h[i] = 'X'
                    p += 1
            res.append(h)
        if not res:
            h = [' ' if unknown else 'X'] * n
            if self.rules_allowed(word, ugly):
                for i in range(1, n - 1):
                    if word[i] == '-':
                        h[i] = '='
            res = [h]
        if min(sum(c in '-=' for c in h) for h in res) == 0:
            res = [h for h in res if not any(c in '-=' for c in h)]
        for h in res:
            start = 0
            while start < m and h[start] == '=':
                start += 1
            end = start + 1
            spans = []
            while end < m:
                if h[end] not in ' X':
                    if end >= start + minlen:
                        spans.append((start, end))
                    start = end + 1 if h[end] == '=' else end
                    end = start + 1
                else:
                    end += 1
            if end == m and start < end and end >= start + minlen:
                spans.append((start, end))
            for a, b in spans:
                part = h[a:b]
                self.rules(word[a:b], part, ugly)
                h[a:b] = part
        return res

    def hyphenate(self, word, o=DEFAULTS):
        n, minlen = len(word), o[9] & 0xffffffffffffffff
        if n < minlen:
            return ' ' * n
        ps = self.patterns(word, not o[4], bool(o[15]), minlen, bool(o[0]))
        # the first reading decides which mark is shown; all have to agree that there is one
        return [''.join((p[i] if all(q[i] not in ' X' for q in ps) else ' ') for i in range(n)) for p in ps]

    def soft_positions(self, word):
        if len(word) < 3:
            return set()
        return {i for p in self.patterns(word, True, True, 3, True) for i, c in enumerate(p) if c == '-'}

    # ------------------------------------------------------------ spelling
    @staticmethod
    def match(word, st):
        res, j = OK, 0
        for i, c in enumerate(word):
            while j < len(st) and st[j] == '=':
                j += 1
            if j >= len(st):
                break
            s = st[j]
            if s in 'ij' and is_lower(c):
                res = CAP_FIRST if i == 0 else CAP_ERROR
            if s in 'pq' and is_upper(c):
                res = CAP_ERROR
            if res == CAP_ERROR:
                break
            j += 1
        return res

    def plain(self, w):
        return min([self.match(w, a['STRUCTURE']) for a in self.analyses(w)], default=FAILED)

    def no_shy(self, w, extra, memo):
        if w in memo:
            return memo[w]
        memo[w] = r = self._no_shy(w, extra, memo)
        return r

    def _no_shy(self, w, extra, memo):
        n = len(w)
        res = self.plain(w)
        if res == OK or n <= 3:
            return res
        p = w.find('-', 1, n - 1)
        if p < 0:
            return res
        joined = w[:p] + w[p + 1:]
        if extra and p > 1 and joined[p] != '-':
            if self.no_shy(joined, extra, memo) == OK:
                return OK
        if p >= 2 and n - p >= 3:
            a, b = lower(w[p - 2]), lower(w[p - 1])
            if a in VOWELS and b in CONSONANTS and lower(w[p + 1]) == a and lower(w[p + 2]) == b:
                s = self.plain(joined)
                if s != FAILED and s < res:
                    return s
        q = w.rfind('-', 1, n - 1)
        lead = self.no_shy(w[:q], extra, memo)
        if lead != FAILED and any(a.get('MALAGA_VAPAA_JALKIOSA') == 'true' for a in self.analyses(w[q + 1:])):
            return lead
        wb = nb = FAILED
        for a in self.analyses(joined):
            st, j, i = a['STRUCTURE'], 0, 0
            while i < p:
                while j < len(st) and st[j] == '=':
                    j += 1
                if j >= len(st):
                    break
                j += 1
                i += 1
            if i == p:
                s = self.match(joined, st)
                if st[j:j + 1] == '=':
                    wb = min(wb, s)
                else:
                    nb = min(nb, s)
        if wb != FAILED and nb != FAILED and wb < res:
            return wb
        return res

    def speller(self, w, extra=0):
        """verdict on exactly these characters"""
        key = (w, bool(extra))
        r = self.scache.get(key)
        if r is None:
            if len(self.scache) > 100000:
                self.scache.clear()
            r = self.scache[key] = self._speller(w, extra)
        return r

    def _speller(self, w, extra):
        if SHY not in w:
            return self.no_shy(w, extra, {})
        out, pos = [], []
        for i, c in enumerate(w):
            if c != SHY:
                out.append(c)
            else:
                if not out or i + 1 == len(w) or (pos and pos[-1] == len(out)):
                    return FAILED
                pos.append(len(out))
        s = ''.join(out)
        res = self.no_shy(s, extra, {})
        if res != FAILED:
            ok = self.soft_positions(s)
            if any(p not in ok for p in pos):
                return FAILED
        return res

    def with_hyphens(self, w, o):
        r = self.speller(w, o[11])
        if r != FAILED or not o[12] or len(w) < 2 or (w[0] == '-' and w[-1] == '-'):
            return r
        if w[0] == '-':
            w = w + '-'
        elif w[-1] == '-':
            w = '-' + w
        else:
            w = '-' + w + '-'
        return self.speller(w, o[11])

    def spell(self, word, o=DEFAULTS):
        """True if the word is accepted"""
        if not word:
            return True
        if len(word) > 255:
            return False
        w = model.normalise(word)
        if o[1] and any(is_digit(c) for c in w):
            return True
        case = model.casetype(w)
        if o[3] and case == model.ALL_UPPER:
            return True
        if o[10] and nonword(w):
            return True
        forms = [w]
        if o[0] and w[-1] == '.':
            forms.append(w[:-1])
        if case == model.ALL_UPPER and not o[7]:
            case = model.COMPLEX
        for f in forms:
            if case in (model.COMPLEX, model.NO_LETTERS):
                r = self.with_hyphens(lower(f[:1]) + f[1:], o)
                if r == OK or (r == CAP_FIRST and o[6] and is_upper(w[0])):
                    return True
                continue
            r = self.with_hyphens(lowers(f), o)
            if case == model.ALL_LOWER:
                ok = r == OK
            elif case == model.FIRST_UPPER:
                ok = (r == OK and o[6]) or r == CAP_FIRST
            else:
                ok = r != FAILED
            if ok:
                return True
        return False
