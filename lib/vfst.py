"""Independent reader and interpreter of compiled transducers, and of the AT&T text form they come from.

Nothing here shares code with the implementation: it is the reference the engine is compared with, and the
source of random words of the language."""
import os, struct


class Flags:
    """Flag diacritic semantics (Beesley & Karttunen), as a function on an immutable tuple of (feature, value)."""
    @staticmethod
    def parse(sym):
        body = sym[3:-1]
        feat, dot, val = body.partition('.')
        return sym[1], feat, (val if dot else None)

    @staticmethod
    def apply(state, op):
        o, feat, val = op
        cur = state.get(feat)
        if o == 'P':
            return {**state, feat: val}
        if o == 'C':
            r = dict(state)
            r.pop(feat, None)
            return r
        if o == 'U':
            if cur is None:
                return {**state, feat: val}
            return state if cur == val else None
        if o == 'R':
            if val is None:
                return state if cur is not None else None
            return state if cur == val else None
        if o == 'D':
            if val is None:
                return state if cur is None else None
            return state if cur != val else None
        raise ValueError(o)


class Fst:
    """states: list of lists of (in, out, target, weight); in is None for a final marker.
    symbols are strings: '' epsilon, '@...@' flags, others literal."""
    def __init__(self, states):
        self.states = states
        self.flags = {}
        for s in states:
            for t in s:
                if t[0] and t[0].startswith('@'):
                    self.flags[t[0]] = Flags.parse(t[0])
        self.index = [None] * len(states)
        self.tags = None

    def _idx(self, s):
        x = self.index[s]
        if x is None:
            finals, eps, by = [], [], {}
            for n, (i, o, t, w) in enumerate(self.states[s]):
                if i is None:
                    finals.append(w)
                elif i == '' or i in self.flags:
                    eps.append((i, o, t, w))
                else:
                    by.setdefault(i, []).append((o, t, w))
            x = self.index[s] = (finals, eps, by)
        return x

    @staticmethod
    def outsym(o):
        return '' if not o or o.startswith('@') else o

    def lookup(self, word, limit=100000, prefix=False):
        """All (output, weight) of accepting paths; with prefix=True all (consumed, output, weight).
        Raises OverflowError when the search is larger than limit steps."""
        res, steps = [], 0
        stack = [(0, 0, {}, '', 0)]
        n = len(word)
        while stack:
            steps += 1
            if steps > limit:
                raise OverflowError
            s, pos, fl, out, w = stack.pop()
            finals, eps, by = self._idx(s)
            if pos == n or prefix:
                for fw in finals:
                    res.append((pos, out, w + fw) if prefix else (out, w + fw))
            if pos < n:
                for o, t, tw in by.get(word[pos], ()):
                    stack.append((t, pos + 1, fl, out + self.outsym(o), w + tw))
            for i, o, t, tw in eps:
                f2 = fl if i == '' else Flags.apply(fl, self.flags[i])
                if f2 is not None:
                    stack.append((t, pos, f2, out + self.outsym(o), w + tw))
        return res

    def tagged(self):
        """the edges with each bracketed output symbol; fills the distances from the start and the ways back to it"""
        if self.tags is None:
            tags, dist, back, queue = {}, {0: 0}, {}, [0]
            for s in queue:
                for e in self.states[s]:
                    if e[0] is None:
                        continue
                    if e[1] and e[1].startswith('['):
                        tags.setdefault(e[1], []).append((s, e))
                    back.setdefault(e[2], []).append((s, e[0]))
                    if e[2] not in dist:
                        dist[e[2]] = dist[s] + 1
                        queue.append(e[2])
            self.tags, self.dist, self.back = tags, dist, back
        return self.tags

    def walk_tag(self, rng, tag, tries=40):
        """A random accepted word that has an edge with the given output symbol on its path, or None."""
        edges = self.tagged().get(tag)
        for _ in range(tries if edges else 0):
            t, e = rng.choice(edges)
            path, strict = [e[0]], rng.choice((1.0, 0.9, 0.7))
            while t and len(path) < 90:
                d, opts = self.dist[t], self.back[t]
                if rng.random() < strict:
                    opts = [p for p in opts if self.dist[p[0]] < d]
                t, i = rng.choice(opts)
                path.append(i)
            if t:
                continue
            fl, w = {}, []
            for i in reversed(path):
                if i in self.flags:
                    fl = Flags.apply(fl, self.flags[i])
                    if fl is None:
                        break
                elif i:
                    w.append(i)
            if fl is None:
                continue
            r = self.walk(rng, len(w) + rng.choice((2, 6, 14)), 3, (e[2], fl, w))
            if r is not None:
                return r
        return None

    def walk(self, rng, maxlen=40, tries=60, start=None):
        """A random accepted word (input side), or None."""
        for _ in range(tries):
            s, fl, w, steps = start[0] if start else 0, start[1] if start else {}, list(start[2]) if start else [], 0
            while steps < 400:
                steps += 1
                opts = []
                for (i, o, t, tw) in self.states[s]:
                    if i is None:
                        opts.append(None)
                    elif i in self.flags:
                        f2 = Flags.apply(fl, self.flags[i])
                        if f2 is not None:
                            opts.append((i, t, f2))
                    else:
                        opts.append((i, t, fl))
                if not opts:
                    break
                fin = None in opts
                if fin and (len(w) >= maxlen or rng.random() < 0.45 or len(opts) == 1):
                    return ''.join(w)
                if len(w) >= maxlen:
                    break
                c = rng.choice(opts)
                if c is None:
                    return ''.join(w)
                i, s, fl = c
                if i and not i.startswith('@'):
                    w.append(i)
        return None


_READ = {}


def read_vfst(path):
    st = os.stat(path)
    key = (os.path.realpath(path), st.st_mtime_ns, st.st_size)
    if key not in _READ:
        _READ[key] = _read_vfst(path)
    return _READ[key]


def _read_vfst(path):
    d = open(path, 'rb').read()
    c1, c2 = struct.unpack('<II', d[:8])
    if (c1, c2) == (0x13A6E, 0x351FA):
        e = '<'
    elif struct.unpack('>II', d[:8]) == (0x13A6E, 0x351FA):
        e = '>'
    else:
        raise ValueError('cookie')
    weighted = d[8] == 1
    n, = struct.unpack(e + 'H', d[16:18])
    p, syms = 18, []
    for _ in range(n):
        q = d.index(b'\0', p)
        syms.append(d[p:q].decode('utf-8'))
        p = q + 1
    size = 16 if weighted else 8
    p = (p + size - 1) // size * size
    cells = (len(d) - p) // size
    raw = []
    for k in range(cells):
        b = d[p + k * size:p + k * size + size]
        if weighted:
            i, o, t, w, m = struct.unpack(e + 'IIIhB', b[:15])
            if i == 0xFFFFFFFF:
                i = -1
            raw.append((i, o, t, w, m, struct.unpack(e + 'I', b[:4])[0]))
        else:
            i, o = struct.unpack(e + 'HH', b[:4])
            m = b[7]
            t = b[4] | b[5] << 8 | b[6] << 16 if e == '<' else b[6] | b[5] << 8 | b[4] << 16
            raw.append((-1 if i == 0xFFFF else i, o, t, 0, m, struct.unpack(e + 'I', b[:4])[0]))
    # heads
    states, heads, k = [], {}, 0
    while k < cells:
        heads[k] = len(states)
        m = raw[k][4]
        if m == 255:
            cnt = raw[k + 1][5] + 1
            idx = [k] + list(range(k + 2, k + 1 + cnt))
            nxt = k + 1 + cnt
        else:
            idx = range(k, k + m + 1)
            nxt = k + m + 1
        states.append(idx)
        k = nxt
    out = []
    for idx in states:
        tr = []
        for j in idx:
            i, o, t, w, _, _ = raw[j]
            if i == -1:
                tr.append((None, '', None, w))
            else:
                tr.append((syms[i], syms[o], heads[t], w))
        out.append(tr)
    return Fst(out)


def byteswap(data):
    """the same compiled transducer in the other byte order"""
    d = bytearray(data)
    e, f = ('<', '>') if struct.unpack('<I', data[:4])[0] == 0x13A6E else ('>', '<')
    weighted = data[8] == 1
    for k in (0, 4):
        d[k:k + 4] = data[k:k + 4][::-1]
    d[16:18] = data[16:18][::-1]
    n, = struct.unpack(e + 'H', data[16:18])
    p = 18
    for _ in range(n):
        p = data.index(b'\0', p) + 1
    size = 16 if weighted else 8
    p = (p + size - 1) // size * size
    over = False
    while p + size <= len(data):
        c = data[p:p + size]
        if over:
            # the overflow cell holds one 32-bit count
            d[p:p + 4] = c[:4][::-1]
            over = False
        elif weighted:
            d[p:p + 16] = c[:4][::-1] + c[4:8][::-1] + c[8:12][::-1] + c[12:14][::-1] + c[14:16]
            over = c[14] == 255
        else:
            d[p:p + 8] = c[:2][::-1] + c[2:4][::-1] + c[4:7][::-1] + c[7:8]
            over = c[7] == 255
        p += size
    return bytes(d)
