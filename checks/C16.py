"""C16: each grammar rule fires exactly where its pattern occurs."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, check, drv, finnish, gen, grammar, model, work, words
from drv import U, C, OPT

RULE = ('seeded paragraphs made of sentences with and without each fault (punctuation, spacing, repetition, quotations, capitals, verbs, conjunctions, listed corrections), '
        'soft hyphens, tabs, brackets, list items and real and mutated texts, under all settings of the three grammar options; the monitor compares every reported error '
        '(code, place, length, suggestion, order) with a reference rule interpreter that uses reference tokens, sentences and readings. '
        'A case is one paragraph with options; non-trivial when the reference reports an error; distinct by both')
NEG = 'en et ei emme ette eivät älä älkää älköön enkä etkä eikä emmekä'.split()
CONJ = 'ja tai mutta että sekä vaan kun jos koska vai eli joten sillä'.split()
VERB = ('juoksen juoksee menen tulee menee luen laulaa laulan syön syövät nukkuu kävelee ajattelee sanoi sanoivat oli olivat on ovat tuli lähti kävi käyn teki tekee näki sain saa antoi tuo '
        'meni juoksi lukivat lauloi puhui haukkui haukkuu leikkivät').split()
NEEDA = 'haluan haluaa tahdon alan alkaa aikoo aion voin voi saattaa täytyy pitää osaan osaa yritän yrittää taidan päätin halusi'.split()
NEEDMA = 'pystyn pystyy rupean rupesi joudun joutuu opin oppii kykenen kykenee menen tulen jäi pääsee lähden suostui ryhtyi ryhdyn'.split()
INF = 'laulaa laulamaan laulamatta juosta juoksemaan syödä syömään mennä menemään lukea lukemaan tekemään tehdä nukkua nukkumaan nukkumatta tulla tulemaan olla olemaan laulamassa'.split()
GEO = 'Helsingin Turun Suomen Tampereen Lapin Oulun Helsinki Turku Sämpyläjoki Kissajärvi Mustajoki Nokian'.split()
NOUN = 'koira kissa talo auto Matti koulu hän nainen mies kirja vene vesi punainen suuri nopeasti eilen tänään kivi kivellä siinä missä miten kuusi kirjan kissan'.split()
ITEMS = '1 2 A B a b i ii iv XI 1.1 2.3.1 12 C3 3, kappale 7 1.2. 10'.split()


def fixes(r):
    global FIX
    try:
        FIX
    except NameError:
        FIX = [x for v in grammar.corrections().values() for x, _ in v]
    w = r.choice(FIX)
    if r.random() < 0.3:
        w = w.replace(' ', r.choice(('  ', '\t', '\u00a0', ' \n', '-', ', ')))
    if r.random() < 0.25 and len(w) > 3:
        i = r.randrange(1, len(w))
        w = w[:i] + '\u00ad' + w[i:]
    if r.random() < 0.1:
        w = gen.edit(r, w)
    if r.random() < 0.1:
        w += r.choice(('kin', 'a', '-', ':n', '.'))
    return w


def word(r):
    k = r.random()
    if k < 0.22:
        return r.choice(VERB)
    if k < 0.5:
        return r.choice(NOUN)
    if k < 0.56:
        return r.choice(CONJ)
    if k < 0.6:
        return r.choice(GEO)
    if k < 0.64:
        return r.choice(NEG)
    if k < 0.68:
        return r.choice(ITEMS)
    if k < 0.72:
        return fixes(r)
    if k < 0.74:
        return words.syllables(r)
    return r.choice(gen.corpus_words()) if r.random() < 0.8 else gen.base_word(r)


def fault(r):
    """a few words with a characteristic combination"""
    k = r.randrange(13)
    w = word(r)
    if k == 0:
        return r.choice(NEG) + r.choice((' ', ' ', '  ', ', ')) + (r.choice(VERB) if r.random() < 0.7 else word(r))
    if k == 1:
        return r.choice(NEEDA + NEEDMA) + r.choice((' ', ' ', ' ', '  ', ' ei ')) + r.choice(INF)
    if k == 2:
        x = r.choice(('sillä', 'ollut', 'olleet', '12', w, w, w))
        y = gen.recase(r, x) if r.random() < 0.4 else x
        return x + r.choice((' ', ' ', '  ', '-', ', ')) + y + (' ' + x if r.random() < 0.2 else '')
    if k == 3:
        return r.choice('"”»') + ' '.join(word(r) for _ in range(r.choice((1, 2)))) + r.choice(('', '.', '!', '?', '...')) + r.choice('"”»') + r.choice((',', ',', '', '.', ' ,', '?'))
    if k == 4:
        return '\u201c' + w + r.choice('\u201d"\u201c')
    if k == 5:
        return r.choice('([') + ' '.join(word(r) for _ in range(r.choice((1, 2)))) + r.choice(('', '.', '!')) + r.choice((')', ']', ')', '))'))
    if k == 6:
        return r.choice(ITEMS) + r.choice((')', ')', '.', ':'))
    if k == 7:
        return w + r.choice((')', ']', ' )', ' ,', ',,', ', ,', ' ,,', '\t', '  ', ' -', ' –', ':', '...', ' .', ';', "'", ' …'))
    if k == 8:
        return fixes(r)
    if k == 9:
        return r.choice(VERB) + ' ' + r.choice((w, w + ',', r.choice(CONJ), '')) + ' ' + r.choice(VERB)
    if k == 10:
        return r.choice(('siinä missä', 'kävi miten kävi', 'Kävi miten', 'siinäkin, missä', '[2]', '[1] [2]', '[sana]', '[a b]', 'A-rapussa', 'A:n', 'KISSA', 'aNNA', 'Kissa-Matti'))
    if k == 11:
        return r.choice(GEO) + r.choice((' ', ' ', '  ', '-', ', ')) + w.capitalize()
    return w.capitalize()


def sentence(r):
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 5, 7))
    parts = [fault(r) if r.random() < 0.3 else word(r) for _ in range(n)]
    t = r.choice((' ',) * 12 + ('  ', ', ', '\t', ' - ')).join(parts)
    if r.random() < 0.06:
        t = t.replace(' ', '\t', 1)
    if r.random() < 0.75:
        t = t[:1].upper() + t[1:]
    if r.random() < 0.05:
        t = t.upper()
    if r.random() < 0.08:
        t = r.choice(('- ', '-', '– ', '"', '(', '* ', '. ', ', ', ': ', '] ', '! ', '\t', '\u201c', ')', '1) ', 'a) ', '1.1 ', '/', '&')) + t
    if r.random() < 0.15:
        t += ' ' + r.choice(CONJ)
    return t + r.choice(('.',) * 12 + ('!', '?', '...', '\u2026', ':', '', '', ';', '."', '.)', ' .', '!!', '.,', ' ', ',', ')'))


def limit(r):
    """a sentence of about the greatest number of tokens, or a paragraph of about the greatest number of sentences, with a fault or two"""
    if r.random() < 0.4:
        n = r.choice((198, 199, 200, 200, 201, 202))
        s = [r.choice(('Kissa juoksi.', 'Koira haukkui!', 'Me menimme.')) for _ in range(n)]
        for i in (r.randrange(n), r.randrange(190, n), n - 1):
            if r.random() < 0.6:
                s[i] = r.choice(('Kissa kissa juoksi.', 'kissa juoksi.', 'Kissa juoksi ,.', 'Kissa juoksi', 'Kissa  juoksi.', 'En menen.', 'Kissa juoksi ja.'))
        return ' '.join(s)
    m = r.choice((497, 498, 499, 500, 500, 501, 502, 503))
    pre = r.choice(('', '', 'Kissa juoksi. ', 'kissa juoksi. Koira  haukkui. '))
    w = [r.choice(NOUN + ['kissalla', 'suuren', 'talossa']) for _ in range(m // 2)]
    w[0] = w[0].capitalize()
    for i in (r.randrange(1, len(w)), len(w) - 1, r.randrange(240, len(w))):
        if r.random() < 0.6:
            w[i] = r.choice((w[i - 1], 'En', 'ja', 'KISSA', 'juoksee', 'lukee'))
    return pre + ' '.join(w) + ('.' if m % 2 == 0 else ' .') + r.choice(('', '', '', ' kissa juoksi.'))


def para(r):
    k = r.random()
    if k < 0.04:
        t = r.choice(gen.corpus_texts())[:1500]
        return gen.mutate_text(r, t) if r.random() < 0.5 else t
    if k < 0.045:
        return ' '.join(sentence(r) for _ in range(r.choice((30, 199, 200, 201, 230))))[:9000] if k < 0.042 else (word(r) + r.choice((' ', ', '))) * r.choice((100, 245, 249, 250, 251, 260)) + '.'
    if k < 0.06:
        return limit(r)
    t = ''
    for _ in range(r.choice((1, 1, 2, 2, 3, 4, 6))):
        t += sentence(r) + r.choice((' ',) * 10 + ('  ', '', '\n', '\t', ' - '))
    if r.random() < 0.85:
        t = t.rstrip(' \n\t-')
    if r.random() < 0.04:
        t = gen.mutate_text(r, t)
    return t


def match(got, want):
    opt = [i for i, e in enumerate(want) if not e[4]]
    for k in range(min(len(opt), 4) + 1):
        for drop in itertools.combinations(opt, k):
            if [e[:4] for i, e in enumerate(want) if i not in drop] == got:
                return True
    return False


def run(o, idx, n):
    r = o.rng
    g = grammar.Grammar(words.lex())
    cmds, plan = [work.init(0)], []
    op = {}
    for _ in range(n):
        if r.random() < 0.12:
            k, v = r.choice((13, 14, 16, 13, 14, 16, 0, 7, 10, 11)), r.randrange(2)
            cmds.append('bo\t0\t%d\t%d' % (k, v))
            op[k] = v
        t = ''.join(c for c in para(r) if c not in '\0\uffff\ufffe')
        if not t:
            continue
        cmds.append('gaU\t0\t' + U(t))
        plan.append((len(cmds) - 1, t, dict(op)))
    res = o.run(cmds)
    if res is None:
        return
    for k, t, p in plan:
        got = drv.dec_errors(res[k])
        try:
            want = g.check(t, p)
        except finnish.Unknown:
            o.stat('no statement by the model')
            continue
        gp = {a: b for a, b in p.items() if a in (13, 14, 16) and b}
        o.case((t, str(sorted(gp))) if want else None)
        for e in want:
            o.stat('error: ' + grammar.NAMES[e[0]])
        got4 = [e[:4] for e in got]
        if not match(got4, want):
            w4 = [e[:4] for e in want]
            miss = [e for e in w4 if e not in got4]
            extra = [e for e in got4 if e not in w4]
            bad = (miss or extra or [(0,)])[0][0]
            kind = ('missed-' if miss else 'extra-' if extra else 'order-') + grammar.NAMES.get(bad, str(bad)).replace(' ', '-')
            o.violation(kind, 'text %r (options %s): missing %r, unexpected %r' % (t[:400], gp, [(grammar.NAMES[e[0]], e) for e in miss[:3]], extra[:3]),
                        {'commands': check.context(cmds, k), 'text': t, 'options': gp, 'errors': got4, 'expected': w4})
    if plan:
        o.sample({'text': plan[-1][1][:150], 'errors': [e[:4] for e in drv.dec_errors(res[plan[-1][0]])][:4]})


def body(c):
    build.harness('plain', 'drv')
    build.dict_full()
    words.lex()
    c.shards(run, c.n(384, 6000), 250)
    c.need = 5000


if __name__ == '__main__':
    check.main('C16', RULE, body, assumptions=['texts without null characters; paragraphs beyond 200 sentences or 500 tokens in a sentence are checked up to those limits only',
                                               'a word that is at once an agent participle and a MA infinitive may or may not take part in the verb-chain rule'])
