"""Reference model of the suggestion search: which corrections are tried, which are words, and in which order they are offered."""
import model
from finnish import OK, CAP_FIRST, CAP_ERROR, FAILED, SHY, Finnish
from model import lower, upper, lowers, uppers, is_upper

R1 = '., as iu io tr td er sš sa nm ui lk kl kg oi äö mn re rt vb pb po yt hj jh jk dt ds df öä gf gh gk fg fd bp bn cv cs we wv xc zž zx qa åo åp åä åö ae ik ty ea'.split()
R2 = '1q 2q 2w 3w 3e 4e 4r 5r 5t 6t 6y 7y 7u 8u 8i 9i 9o 0o 0p +p ie'.split()
R3 = 'es sd nh uj lö kj op äp mk rd vg pl yh hu ji de öl gt fv bv ck wa xs za qk åa aå eé aâ kc sc ij xz'.split()
R4 = ('qw qs wq ws wd ed ef rf rg tf tg th yg yj uh uk il ok ol pö pä se sx dr bg fe fr ft fc gy gb gv hy hn hb hg ju jm jn ki ko km lo lp öp öå äå '
      'zs xd cd cf cx vf bh nj nb mj ew på aq sw sz dw dc dx vc aw az sq').split()
R5 = 'ao oa ou tl sr ai eä äe uv vu od do kq pv vp qe eq ad da rs et te ry yr tu ut yi iy uo ip pi oå hv vh hm mh'.split()
OCR = ['0o', 'li', 'il', 'uo', 'ou', 'aä', 'äa', 'oö', 'öo', 'sš', 'šs', 'zž', 'žz', 'eé', 'ée', 'aâ', 'âa', 'pb', 'bp', 'ef', 'fe', 'qo', 'oq', 'nm', 'mn',
       'uv', 'vu', 'oc', 'co', 'bh', 'hb'] + ['_' + c for c in 'abcdefghijklmnopqrstuvwxyzäö']
INS1, INS2 = 'aitesn', "ulkoämrvpyhjdögfbcw:xzqå'."
BACK, FRONT = 'aouAOU', 'äöyÄÖY'
CASES = {'nimento': 2, 'omanto': 3, 'osanto': 5, 'sisaolento': 8, 'sisaeronto': 12, 'sisatulento': 8, 'ulkoolento': 12, 'ulkoeronto': 30, 'ulkotulento': 20,
         'olento': 20, 'tulento': 20, 'vajanto': 60, 'seuranto': 60, 'keinonto': 20}
NOUNS = {'nimisana', 'laatusana', 'nimisana_laatusana', 'asemosana', 'etunimi', 'sukunimi', 'paikannimi', 'nimi'}


class Stop(Exception):
    pass


def prio(a, res):
    p = CASES.get(a.get('SIJAMUOTO'), 4) if a.get('CLASS') in NOUNS else 4
    k = min(5, a['STRUCTURE'].count('='))
    return p * (1 << 3 * (k - 1) if k else 1) * (1, 2, 3)[res]


class Search:
    def __init__(self, f, word, limit):
        self.f, self.w, self.limit = f, word, limit
        self.cost, self.found, self.kind = 0, [], ''

    def full(self):
        if len(self.found) == 15:
            return True
        return self.cost >= self.limit and not (not self.found and self.cost < 2 * self.limit)

    def spell(self, w):
        best, p = FAILED, 0
        for a in self.f.analyses(w):
            r = Finnish.match(w, a['STRUCTURE'])
            q = prio(a, r)
            if best == FAILED or r < best or (r == best and q < p):
                best, p = r, q
        return best, p

    def add(self, alts, p):
        if len(self.found) < 15:
            p = (p * (len(self.found) + 5) + 2**31) % 2**32 - 2**31
            self.found.append((alts, p, self.kind))

    def attempt(self, w):
        if self.full():
            return
        r, p = self.spell(w)
        self.cost += 1
        if r == OK:
            self.add([w], p)
        elif r == CAP_FIRST:
            self.add([upper(w[0]) + w[1:]], p)
        elif r == CAP_ERROR:
            self.cost += 1
            alts = []
            for a in self.f.analyses(w):
                st, j, out = a['STRUCTURE'], 0, list(w)
                for i in range(len(w)):
                    while j < len(st) and st[j] == '=':
                        j += 1
                    if j >= len(st):
                        break
                    if st[j] in 'ij':
                        out[i] = upper(out[i])
                    elif st[j] in 'pq':
                        out[i] = lower(out[i])
                    j += 1
                s = ''.join(out)
                if s not in alts:
                    alts.append(s)
            self.add(alts, p)

    # the kinds of correction
    def vowels(self):
        pos = [i for i, c in enumerate(self.w) if c in BACK or c in FRONT]
        if not 1 <= len(pos) <= 7:
            return
        for pat in range(1, 1 << len(pos)):
            b = list(self.w)
            for k, i in enumerate(pos):
                if pat >> k & 1:
                    b[i] = FRONT[BACK.index(b[i])] if b[i] in BACK else BACK[FRONT.index(b[i])]
            if self.full():
                return
            self.attempt(''.join(b))

    def replace(self, table):
        w = self.w
        for a, b in table:
            for x, y in ((a, b), (upper(a), upper(b))) if upper(a) != a else ((a, b),):
                for i, c in enumerate(w):
                    if c == x:
                        self.attempt(w[:i] + y + w[i + 1:])
                        if self.full():
                            return

    def multi(self, table, buf, start, n):
        for a, b in table:
            i = buf.find(a, start)
            while i >= 0:
                new = buf[:i] + b + buf[i + 1:]
                if n == 1:
                    self.attempt(new)
                else:
                    self.multi(table, new, i, n - 1)
                if self.full():
                    return
                i = buf.find(a, i + 1)

    def delete(self):
        w = self.w
        for i in range(len(w)):
            if self.full():
                return
            if i == 0 or lower(w[i]) != lower(w[i - 1]):
                self.attempt(w[:i] + w[i + 1:])

    def special(self):
        w, n = self.w, len(self.w)
        for j in range(2, n - 1):
            if self.full():
                break
            if '-' not in w[j - 2:j + 2]:
                self.attempt(w[:j] + '-' + w[j:])
        j = 0
        while j < n and not self.full():
            if j < n - 1 and w[j] == w[j + 1]:
                j += 2
                continue
            if w[j] not in "-'":
                self.attempt(w[:j + 1] + w[j:])
            j += 1

    def part(self, w):
        up = is_upper(w[0])
        if up:
            w = lower(w[0]) + w[1:]
        r, p = self.spell(w)
        self.cost += 1
        if up or r == CAP_FIRST:
            w = upper(w[0]) + w[1:]
        return r in (OK, CAP_FIRST), w, p

    def split(self):
        w, n = self.w, len(self.w)
        head = w
        for k in range(n - 2, 1, -1):
            if w[k - 2] == '-' or w[k - 1] == '-' or w[k + 1] == '-':
                continue
            strip = w[k] == '-'
            # the text of the first part keeps the capital of an earlier, longer attempt
            head = head[:k]
            ok, head, p = self.part(head)
            if not ok and head[-1] == '.':
                ok, h, p = self.part(head[:-1])
                head = h + '.'
            if ok:
                ok2, tail, p2 = self.part(w[k + strip:])
                if ok2:
                    self.add([head + ' ' + tail], (p + p2) * (6 if strip else 1))
            if self.full():
                return

    def two(self, table):
        w, i = lowers(self.w), 0
        while i < len(w) - 1:
            if w[i] != w[i + 1]:
                i += 1
                continue
            for a, b in table:
                if a == w[i]:
                    self.attempt(w[:i] + b + b + w[i + 2:])
                    if self.full():
                        return
            if self.full():
                return
            i += 2

    def insert(self, chars):
        w = self.w
        for c in chars:
            for j in range(len(w)):
                if self.full():
                    break
                if c == lower(w[j]) or (j and c == lower(w[j - 1])):
                    continue
                self.attempt(w[:j] + c + w[j:])
            if self.full():
                return
            if c != lower(w[-1]):
                self.attempt(w + c)

    def swap(self):
        w, n = self.w, len(self.w)
        d = 10 if n <= 8 else 50 // n
        if not d:
            return
        for i in range(n):
            for j in range(i + 1, min(n, i + d + 1)):
                if self.full():
                    return
                a, b = lower(w[i]), lower(w[j])
                if a == b or any({a, b} == {x, y} for x, y in zip(BACK[:3], FRONT[:3])):
                    continue
                self.attempt(w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:])

    def delete_two(self):
        w = self.w
        if len(w) < 6:
            return
        seen = set()
        for i in range(len(w) - 3):
            if self.full():
                return
            if w[i:i + 2] == w[i + 2:i + 4]:
                c = w[:i] + w[i + 2:]
                if c not in seen:
                    seen.add(c)
                    self.attempt(c)

    def soft(self):
        if SHY in self.w:
            self.attempt(self.w.replace(SHY, ''))

    def run(self, ocr):
        def go(steps):
            for kind, fn in steps:
                if self.full():
                    return
                self.kind = kind
                fn()
        go([('case', lambda: self.attempt(self.w))] + ([] if ocr else [('soft hyphen', self.soft)]))
        if self.found:
            return
        if ocr:
            go([('change', lambda: self.replace(OCR)), ('two changes', lambda: self.multi(OCR, self.w, 0, 2))])
            return
        go([('vowel', self.vowels), ('change', lambda: self.replace(R1)), ('removal', self.delete), ('hyphen or doubling', self.special), ('space', self.split),
            ('double change', lambda: self.two(R1)), ('change', lambda: self.replace(R2)), ('insertion', lambda: self.insert(INS1)), ('swap', self.swap),
            ('change', lambda: self.replace(R3)), ('insertion', lambda: self.insert(INS2)), ('change', lambda: self.replace(R4)),
            ('double change', lambda: self.two(R2)), ('double change', lambda: self.two(R3)), ('double change', lambda: self.two(R4)),
            ('repeated pair', self.delete_two), ('change', lambda: self.replace(R5))])


def reformat(orig, s):
    s, n, m = list(s), len(orig), len(s)
    if not n or not m:
        return ''.join(s)
    k = min(n, m)

    def back(i, j):
        if orig[i] != s[j] and orig[i] in model.SINGLE and len(model.SINGLE[orig[i]]) == 1 and model.SINGLE[orig[i]] == s[j]:
            s[j] = orig[i]
        return orig[i] == s[j]
    i = 0
    while i < k and back(i, i):
        i += 1
    j = 1
    while j <= k - i and back(n - j, m - j):
        j += 1
    return ''.join(s)


def suggest(f, word, o, ocr=False):
    """list of (acceptable forms, kind of correction) or None; and the search"""
    if not 1 < len(word) <= 255:
        return None, None
    w = model.normalise(word)
    if len(w) <= 1:
        return None, None
    dot = False
    if o[0]:
        if len(w) == 2:
            return None, None
        if w[-1] == '.':
            w, dot = w[:-1], True
    s = Search(f, w, 2000 if ocr else 800)
    s.run(ocr)
    if not s.found:
        return None, s
    out = []
    case = model.casetype(w)
    seen = []
    for alts, p, kind in sorted(s.found, key=lambda x: x[1]):
        fin = []
        alts = [a + '.' if dot and a[-1] != '.' else a for a in alts]
        if alts in seen:
            continue
        seen.append(alts)
        if len(seen) > 5:
            break
        for a in alts:
            if (case == model.FIRST_UPPER or (case == model.COMPLEX and is_upper(w[0]))) and model.casetype(a) == model.ALL_LOWER:
                a = upper(a[0]) + lowers(a[1:])
            if case == model.ALL_UPPER and o[7]:
                a = uppers(a)
            fin.append(reformat(word[:-1] if dot else word, a))
        out.append((fin, kind))
    return out, s
