"""Reference grammar checker: what the documented rules say about a paragraph."""
import re
import build, finnish, model
from model import WORD, PUNCTUATION, WHITESPACE, QUOTES, is_lower, is_upper, is_digit, lower, upper, lowers

SPELLING, EXTRA_SPACE, SPACE_BEFORE, EXTRA_COMMA, BAD_STARTER, WRITE_LOWER, WRITE_UPPER, REPEAT, NO_END = 1, 2, 3, 4, 5, 6, 7, 8, 9
BAD_QUOTE_END, FOREIGN_QUOTE, BAD_PAREN, NEGATIVE, A_INF, MA_INF, CONJUNCTION, NO_VERB, EXTRA_VERB = range(10, 19)
NAMES = {1: 'correction', 2: 'extra space', 3: 'space before comma', 4: 'two commas', 5: 'sentence starter', 6: 'lower case', 7: 'upper case', 8: 'repeated word',
         9: 'end punctuation', 10: 'quotation end', 11: 'foreign quote', 12: 'closing parenthesis', 13: 'negative verb', 14: 'A infinitive', 15: 'MA infinitive',
         16: 'final conjunction', 17: 'missing verb', 18: 'extra verb'}
TITLES, UNFINISHED, BULLETS = 13, 14, 16
SHY = '\u00ad'
MAX_SENTENCES, MAX_TOKENS, MAX_CHARS = 200, 500, 20000


class Token:
    def __init__(self, ty, s, pos):
        self.type, self.s, self.pos, self.n = ty, s, pos, len(s)
        self.valid = self.starter = self.geogen = self.geo = False
        self.may_verb = self.may_conj = self.verb = self.neg = self.posverb = self.conj = self.lcase = False
        self.needs, self.follow = None, {None}


def classify(t, readings):
    """what the readings of a word say about it"""
    t.lcase = True
    t.valid = bool(readings)
    every = {'conj': True, 'neg': True, 'posverb': True, 'verb': True}
    needs, moods, agent = set(), set(), False
    for a in readings:
        c, mood, person, neg = a.get('CLASS'), a.get('MOOD'), a.get('PERSON'), a.get('NEGATIVE')
        st = a.get('STRUCTURE', '')
        if st[1:2] not in ('p', 'q'):
            t.lcase = False
            if c == 'paikannimi' and a.get('SIJAMUOTO') == 'omanto':
                t.geogen = True
        if c == 'sidesana' or (c == 'kieltosana' and t.s[-1] == 'ä'):
            t.may_conj = True
        else:
            every['conj'] = False
        if c == 'kieltosana':
            every['posverb'] = every['verb'] = False
        elif c == 'teonsana':
            if neg != 'false' or (mood in (None, 'conditional') and person in (None, '3')):
                every['posverb'] = False
            if mood not in ('A-infinitive', 'E-infinitive') and neg != 'true':
                t.may_verb = True
            if mood != 'indicative':
                every['verb'] = False
            every['neg'] = False
        else:
            every['posverb'] = every['verb'] = every['neg'] = False
            if c is None:
                t.may_verb = True
        if a.get('POSSIBLE_GEOGRAPHICAL_NAME') == 'true':
            t.geo = True
        needs.add(a.get('REQUIRE_FOLLOWING_VERB'))
        if mood in ('A-infinitive', 'MA-infinitive'):
            moods.add(mood)
        elif a.get('PARTICIPLE') == 'agent' and a.get('SIJAMUOTO') == 'vajanto':
            agent = True
    if readings:
        t.conj, t.neg, t.posverb, t.verb = every['conj'], every['neg'], every['posverb'], every['verb']
        if len(needs) == 1:
            t.needs = needs.pop()
        if len(moods) == 1:
            t.follow = set(moods)
            if agent:
                t.follow.add(None)      # which reading decides is not stated


class Grammar:
    def __init__(self, f, extra=0):
        self.f = f              # finnish.Finnish
        self.fix = corrections()

    def paragraph(self, text, opts):
        """list of sentences (lists of tokens); None when one is too long; flag: analysed to the end"""
        ext = {k: v for k, v in opts.items() if k in finnish.DEFAULTS}
        extra = ext.get(11, 0)

        def accepted(w):
            return self.f.speller(w, extra) != finnish.FAILED
        out, pos, p = [], 0, 0
        done = False
        while not done and len(out) < MAX_SENTENCES:
            start = p
            while True:
                ty, n = model.next_sentence(text[p:], accepted)
                p += n
                if ty != model.S_POSSIBLE:
                    break
            done = ty == model.S_NONE
            s, q, starter = [], start, False
            for tt, n in model.tokens(text[start:p]):
                t = Token(tt, text[q:q + n], q)
                q += n
                if tt == WORD:
                    a = self.f.lex.analyse(t.s.replace(SHY, ''), False)
                    if a is None:
                        raise finnish.Unknown()
                    classify(t, a)
                    if starter:
                        t.starter = True
                        starter = False
                elif tt == PUNCTUATION and (t.n == 3 or t.s in '.:\u2026\u2013\u2014'):
                    starter = True
                s.append(t)
            if len(s) > MAX_TOKENS:
                return None, False
            out.append(s)
        return out, done

    def check(self, text, opts):
        """list of (code, start, length, suggestions or None, certain)"""
        para, complete = self.paragraph(text, opts)
        if para is None:
            return []
        if len(para) == 1 and not any(t.type == WHITESPACE for t in para[0]):
            if len(para[0]) > 2 or not para[0] or para[0][0].type != WORD:
                return []
        self.out = []
        for s in para:
            self.punctuation(s)
            self.quotations(s)
            self.repeats(s)
            self.verbs(s, opts)
            self.pairs(s)
            self.conjunction(s)
            self.autocorrect(s)
        self.capitals(para, opts)
        if not (opts.get(TITLES) and len(para) == 1) and not opts.get(UNFINISHED) and not opts.get(BULLETS) and complete:
            t = para[-1][-1]
            if t.type != PUNCTUATION:
                self.err(NO_END, t.pos, t.n)
        return sorted(self.out, key=lambda e: e[1])

    def err(self, code, pos, n, sug=None, certain=True):
        self.out.append((code, pos, n, None if sug is None else [sug], certain))

    def punctuation(self, s):
        i = -1
        while i + 1 < len(s):
            i += 1
            t = s[i]
            nxt = s[i + 1] if i + 1 < len(s) else None
            comma = nxt is not None and nxt.type == PUNCTUATION and nxt.s[0] == ','
            if t.type == WHITESPACE:
                if t.n > 1:
                    self.err(EXTRA_SPACE, t.pos, t.n, ' ')
                elif comma:
                    self.err(SPACE_BEFORE, t.pos, 2, ',')
            elif t.type == PUNCTUATION:
                if t.s[0] == '[' and i + 2 < len(s) and s[i + 2].s[0] == ']':
                    i += 2
                elif i == 0:
                    if t.s[0] not in "()'-\u201c\u2013\u2014" + QUOTES:
                        if t.pos == 0:
                            self.err(BAD_STARTER, 0, 1)
                        else:
                            self.err(BAD_STARTER, t.pos - 1, 2)
                elif t.s[0] == ',' and comma:
                    self.err(EXTRA_COMMA, t.pos, 2, ',')

    def quotations(self, s):
        for i in range(len(s) - 2):
            t, a, b = s[i:i + 3]
            if t.type != PUNCTUATION:
                continue
            if t.s[0] == '\u201c':
                self.err(FOREIGN_QUOTE, t.pos, 1, '\u201d')
                return
            if a.type == b.type == PUNCTUATION and a.s[0] in QUOTES and b.s[0] == ',':
                if t.s[0] == '.':
                    self.err(BAD_QUOTE_END, t.pos, 3, a.s[0] + ',')
                elif t.s[0] in '!?':
                    self.err(BAD_QUOTE_END, t.pos, 3, t.s[0] + a.s[0])

    def repeats(self, s):
        for i in range(len(s) - 2):
            a, w, b = s[i:i + 3]
            if (a.type, w.type, b.type) == (WORD, WHITESPACE, WORD) and lowers(a.s) == lowers(b.s) and not is_digit(a.s[0]) \
                    and a.s not in ('ollut', 'olleet', 'sillä'):
                self.err(REPEAT, a.pos, a.n + w.n + b.n, a.s, i == 0 or s[i - 1].type != WORD)

    def verbs(self, s, opts):
        if not s or s[0].type == PUNCTUATION:
            return
        if opts.get(BULLETS) and s[0].pos == 0 and (is_lower(s[0].s[0]) or not s[0].lcase):
            return
        words, found, clause, last = 0, False, None, None
        todo = []
        for i, t in enumerate(s):
            if t.s[0] == '\t':
                break
            if t.type == WORD:
                words += 1
                found = found or not t.valid or t.may_verb or t.neg
                after = s[i + 2].s if i + 2 < len(s) else ''
                if t.may_conj or (t.s.startswith('siinä') and after.startswith('missä')) or (t.s.startswith('kävi') and after.startswith('miten')):
                    clause = None
                elif t.verb:
                    if clause is None:
                        clause = i
                    else:
                        v = s[clause]
                        if not (i == clause + 2 and t.s == v.s):
                            self.err(EXTRA_VERB, v.pos, t.pos + t.n - v.pos)
                        clause = None
            elif t.type == PUNCTUATION:
                clause = None
            if t.type != WHITESPACE:
                last = t
        else:
            if not found and words >= 2 and last.s[0] in '.?' and last.s != '...':
                self.err(NO_VERB, s[0].pos, last.pos + last.n - s[0].pos)

    def pairs(self, s):
        for code in (NEGATIVE, 0):
            for i in range(len(s) - 2):
                a, w, b = s[i:i + 3]
                if (a.type, w.type, b.type) != (WORD, WHITESPACE, WORD):
                    continue
                n = b.pos + b.n - a.pos
                if code:
                    if a.neg and b.posverb:
                        self.err(NEGATIVE, a.pos, n)
                elif a.needs == 'A-infinitive' and 'MA-infinitive' in b.follow:
                    self.err(A_INF, a.pos, n, None, len(b.follow) == 1)
                elif a.needs == 'MA-infinitive' and 'A-infinitive' in b.follow:
                    self.err(MA_INF, a.pos, n, None, len(b.follow) == 1)

    def conjunction(self, s):
        k = [t for t in s]
        if k and k[-1].type == WHITESPACE:
            k.pop()
        if len(k) >= 2 and k[-1].type == PUNCTUATION and k[-1].s == '.' and k[-2].conj and k[-2].s != 'vaan':
            self.err(CONJUNCTION, k[-2].pos, k[-2].n)

    def autocorrect(self, s):
        if sum(1 if t.type == WHITESPACE else t.n for t in s) >= MAX_CHARS - 1:
            return
        flat = [' ' if t.type == WHITESPACE else t.s.replace(SHY, '') for t in s]
        for i, t in enumerate(s):
            if t.type != WORD:
                continue
            if not self.match(s, flat, i, False) and i == 0 and is_upper(t.s[0]):
                self.match(s, [lower(flat[0][:1]) + flat[0][1:]] + flat[1:], 0, True)

    def match(self, s, flat, i, cap):
        """is some listed expression a prefix of the text from token i on? Reported when it ends where a token ends"""
        rest = ''
        for j in range(i, len(s)):
            rest += flat[j]
            if len(rest) > 60:
                break
        for bad, good in self.fix.get(rest[:2], ()):
            if rest.startswith(bad):
                acc = ''
                for j in range(i, len(s)):
                    acc += flat[j]
                    if acc == bad:
                        self.err(SPELLING, s[i].pos, s[j].pos + s[j].n - s[i].pos, upper(good[0]) + good[1:] if cap else good)
                        break
                return True
        return False

    # -------- capital letters
    def capitals(self, para, opts):
        toks = []
        for s in para:
            quote = False
            for t in s:
                if t.s[0] == '\u201c':
                    quote = True
                    break
                if t.type == WORD and any(is_lower(c) for c in t.s):
                    break
            else:
                continue            # nothing in lower case: written in capitals on purpose
            if not quote:
                toks += s
        # words and what stands between them
        words, seps, cur = [], [], []
        for t in toks:
            if t.type == WORD:
                words.append(t)
                seps.append(cur)
                cur = []
            else:
                cur.append(t)
        seps.append(cur)
        # a word is judged only if something follows it; a trailing skipped sentence counts as such
        if not toks and not para:
            return
        n = len(words)
        tail = toks and toks[-1].type == WORD and para and toks[-1] is para[-1][-1]
        quotes, ended = [], [False]

        def scan(sep):
            had = False
            for t in sep:
                if t.type != PUNCTUATION:
                    continue
                c = t.s[0]
                if c in QUOTES:
                    had = True
                    if quotes and quotes[-1] == c:
                        quotes.pop()
                    else:
                        quotes.append(c)
                elif c in '([':
                    quotes.append(c)
                elif c in ')]':
                    if not quotes:
                        self.err(BAD_PAREN, t.pos, 1)
                    elif quotes[-1] in '([':
                        quotes.pop()
                elif c in '.!?':
                    ended[0] = True
            return had

        def ends(sep):
            for t in reversed(sep):
                if t.type == PUNCTUATION and t.s[0] != ',':
                    return t.s[0] in '.?!'
            return False

        def chapter(w):
            return re.fullmatch(r'[0-9]+(\.[0-9]+)*', w) is not None

        def item(w):
            return len(w) == 1 or chapter(w) or all(c in 'iIvVxX' for c in w)

        if not para or not para[0]:
            return
        scan(seps[0])
        state = 'Q' if quotes else 'D' if opts.get(BULLETS) or any(t.s == '-' for t in seps[0]) else 'U'
        for k in range(n):
            w, sep = words[k], seps[k + 1]
            if k == n - 1 and tail:
                break
            if state == 'L' and w.valid and w.lcase and is_upper(w.s[0]) and not w.starter and w.n > 1 and w.s[1] not in '-:' \
                    and model.casetype(w.s) != model.ALL_UPPER and not w.geo:
                self.err(WRITE_LOWER, w.pos, w.n, lower(w.s[0]) + w.s[1:])
            if state != 'Q' and sep and sep[0].s[0] == ')' and item(w.s):
                scan(sep[1:])
                state = 'D'
                continue
            if state == 'U' and not is_upper(w.s[0]) and not is_digit(w.s[0]) and not w.starter:
                self.err(WRITE_UPPER, w.pos, w.n, upper(w.s[0]) + w.s[1:])
            had = scan(sep)
            if quotes:
                state = 'Q'
            elif state == 'Q':
                if ends(sep):
                    ended[0], state = False, 'U'
                elif had or ended[0]:
                    ended[0], state = False, 'D'
                else:
                    state = 'L'
            elif any(t.s == '\t' for t in sep) or (state in 'UL' and w.geogen and len(sep) == 1 and sep[0].s[0] == ' '):
                state = 'D'
            elif state in 'UD' and opts.get(TITLES) and chapter(w.s):
                state = 'D'
            elif state == 'U' and all('0' <= c <= '9' for c in w.s) and self.before(words, seps, k):
                state = 'D'
            elif ends(sep):
                ended[0] = True
                state = 'U'
            else:
                state = 'L'

    @staticmethod
    def before(words, seps, k):
        """is there a token before word k, in what is judged, that is not white space?"""
        t = seps[k][-1] if seps[k] else words[k - 1] if k else None
        return t is not None and t.type != WHITESPACE


def corrections():
    s = open(build.REPO + '/voikko-fi/vocabulary/autocorrect/fi.xml', encoding='utf-8').read()
    import html
    out = {}
    for a, b in re.findall(r'<incorrect>(.*?)</incorrect>\s*<correct>(.*?)</correct>', s, re.S):
        a, b = (html.unescape(x).replace('=', '') for x in (a, b))
        out.setdefault(a[:2], []).append((a, b))
    return out
