"""Executes calls on the Python binding of the working tree; one call per line, one answer per line (see lib/binding.py)."""
import ctypes, sys, threading
lib, out = sys.argv[1], sys.stdout
import libvoikko
from libvoikko import Voikko, VoikkoException, Dictionary, Token, Sentence, SuggestionStrategy
Voikko.setLibrarySearchPath(lib)
raw = ctypes.CDLL(lib + '/libvoikko.so.1')
raw.verif_live.restype = ctypes.c_long
H = {}


def s(h):
    return bytes.fromhex(h).decode('utf-16-be', 'surrogatepass')


def opt(h):
    return None if h == '-' else s(h)


def x(t):
    assert isinstance(t, str), repr(t)
    return t.encode('utf-16-be', 'surrogatepass').hex() or '_'


def lst(l):
    return ' '.join(['L'] + list(l))


TOK = {Token.NONE: 'NONE', Token.WORD: 'WORD', Token.PUNCTUATION: 'PUNCTUATION', Token.WHITESPACE: 'WHITESPACE', Token.UNKNOWN: 'UNKNOWN'}
SEN = {Sentence.NONE: 'NONE', Sentence.NO_START: 'NO_START', Sentence.PROBABLE: 'PROBABLE', Sentence.POSSIBLE: 'POSSIBLE'}


def one(f):
    op = f[0]
    if op == 'new':
        H[f[1]] = Voikko(opt(f[2]), opt(f[3]))
        return 'OK'
    if op == 'newterm':
        v = Voikko(opt(f[2]), opt(f[3]))
        if f[4] == '1':
            v.terminate()
            v.terminate()
        del v
        return 'OK'
    if op in ('ld', 'ls', 'lh', 'lg', 'ver', 'sort'):
        if op == 'ver':
            return x(Voikko.getVersion())
        if op == 'sort':
            ds = [Dictionary(*[s(p) if p != '_' else '' for p in d.split(',')]) for d in f[1].split(' ')]
            for a in ds:
                for b in ds:
                    key = lambda d: (d.language, d.script, d.variant, d.description)
                    if (a == b) != (key(a) == key(b)) or a == b and hash(a) != hash(b):
                        return 'BAD equality'
            return lst(','.join(map(x, (d.language, d.script, d.variant, d.description))) for d in sorted(ds))
        p = opt(f[1])
        if op == 'ld':
            return lst(','.join(map(x, (d.language, d.script, d.variant, d.description))) for d in Voikko.listDicts(p))
        fn = {'ls': Voikko.listSupportedSpellingLanguages, 'lh': Voikko.listSupportedHyphenationLanguages, 'lg': Voikko.listSupportedGrammarCheckingLanguages}[op]
        return lst(map(x, fn(p) if p is not None else fn()))
    v = H[f[1]]
    if op == 'term':
        v.terminate()
        return 'OK'
    if op == 'del':
        del H[f[1]]
        return 'OK'
    if op == 'sp':
        r = v.spell(s(f[2]))
        return {True: '1', False: '0'}[r] if isinstance(r, bool) else 'BAD'
    if op == 'sg':
        return lst(map(x, v.suggest(s(f[2]))))
    if op == 'gr':
        return lst('%d:%d:%d:%s:%s' % (e.errorCode, e.startPos, e.errorLen, x(e.shortDescription), ','.join(map(x, e.suggestions)))
                   for e in v.grammarErrors(s(f[2]), s(f[3])))
    if op == 'an':
        return lst(';'.join('%s=%s' % (k, x(d[k])) for k in sorted(d)) or '_' for d in v.analyze(s(f[2])))
    if op == 'tk':
        l = v.tokens(s(f[2]))
        for t in l:
            if t.tokenTypeName != TOK[t.tokenType]:
                return 'BAD name'
        return lst('%s:%s' % (TOK[t.tokenType], x(t.tokenText)) for t in l)
    if op == 'st':
        l = v.sentences(s(f[2]))
        for t in l:
            if t.nextStartTypeName != SEN[t.nextStartType]:
                return 'BAD name'
        return lst('%s:%s' % (SEN[t.nextStartType], x(t.sentenceText)) for t in l)
    if op == 'av':
        r = v.attributeValues(s(f[2]))
        return 'N' if r is None else lst(map(x, r))
    if op == 'hp':
        return 'S' + x(v.getHyphenationPattern(s(f[2])))
    if op == 'hd':
        return 'S' + x(v.hyphenate(s(f[2])))
    if op == 'hy':
        return 'S' + x(v.hyphenate(s(f[2]), s(f[3]), f[4] == '1'))
    if op == 'set':
        val = {'true': True, 'false': False, 'OCR': SuggestionStrategy.OCR, 'TYPO': SuggestionStrategy.TYPO, 'BADSTRATEGY': 77}.get(f[3])
        getattr(v, f[2])(int(f[3]) if val is None else val)
        return 'OK'
    if op == 'bo':
        v.setBooleanOption(int(f[2]), f[3] == '1')
        return 'OK'
    if op == 'io':
        v.setIntegerOption(int(f[2]), int(f[3]))
        return 'OK'
    return 'BAD op'


def answer(line):
    f = line.rstrip('\n').split('\t')
    n = 1
    if f[0].startswith('*'):
        n, f[0] = 4, f[0][1:]
    lv = []
    for k in range(n):
        try:
            a = one(f)
        except VoikkoException:
            a = 'X:VoikkoException'
        except (UnicodeError, AttributeError, TypeError, ValueError, KeyError, IndexError) as e:
            a = 'X:%s: %s' % (type(e).__name__, e)
        if n > 1:
            if k and a != last:
                return 'BAD answers of the same call differ: %s / %s' % (last, a)
            last = a
            lv.append(raw.verif_live())
    return a + ('\t%d' % min(y - x for x, y in zip(lv[1:], lv[2:])) if n > 1 else '')


def program(lines, res):
    for l in lines:
        res.append(answer(l))
        if res is single:
            out.write(res[-1].replace('\n', ' ') + '\n')
            out.flush()


single = []
text = sys.stdin.read().split('\n')[:-1]
groups = [[]]
for l in text:
    if l == '||':
        groups.append([])
    else:
        groups[-1].append(l)
if len(groups) == 1:
    program(groups[0], single)
else:
    # one thread for each group, each with instances of its own
    res = [[] for _ in groups]
    ts = [threading.Thread(target=program, args=(g, r)) for g, r in zip(groups, res)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in res:
        for a in r:
            out.write(a.replace('\n', ' ') + '\n')
out.flush()
