"""Random bobcat grammars and an independent reading of what a parse step
may do.  Categories are tuples ('/', res, arg), ('\\', res, arg) and
(atom, feature)."""
from __future__ import annotations

ATOMS = ['N', 'NP', 'S', 'PP', 'conj', ',', ';', ':', '.', 'LQU', 'RQU',
         'LRB', 'RRB']
PUNCT = ATOMS[5:]
NAMES = {'N': 'n', 'NP': 'np', 'S': 's', 'PP': 'p', 'conj': 'conj'}


def cplx(c):
    return len(c) == 3


def read(s, top=True):
    """Parse a plain category string (left-nested brackets explicit)."""
    out, pos = _read(s, 0)
    if pos < len(s):
        d = s[pos]
        b, pos = _read(s, pos + 1)
        out = (d, out, b)
    assert pos == len(s), s
    return out


def _read(s, pos):
    if s[pos] == '(':
        a, pos = _read(s, pos + 1)
        if s[pos] != ')':
            d = s[pos]
            b, pos = _read(s, pos + 1)
            a = (d, a, b)
        assert s[pos] == ')', s
        return a, pos + 1
    k = pos
    while k < len(s) and s[k] not in '()/\\':
        k += 1
    w = s[pos:k]
    feat = ''
    if w.endswith(']'):
        w, feat = w[:-1].split('[')
    return (w, feat), k


def show(c, top=True):
    if not cplx(c):
        return c[0] + (f'[{c[1]}]' if c[1] else '')
    t = show(c[1], False) + c[0] + show(c[2], False)
    return t if top else f'({t})'


VARS = 'YZWVUTRQAB'


def markup(c):
    """Marked-up category: the head variable, one per argument, modifiers
    sharing the variables of what they modify."""
    it = iter(VARS)
    slot = [0]

    def same(a, b):
        return unx(a) == unx(b)

    def nxt():
        return next(it)

    def fresh(c, var):
        """A constituent headed by var, whose own arguments are open."""
        if not cplx(c):
            return f'{x(c)}{{{var}}}'
        if same(c[1], c[2]):
            v = nxt()
            a = fresh(c[2], v)
            return f'({a}{c[0]}{a}){{{var}}}'
        return f'({fresh(c[1], var)}{c[0]}{fresh(c[2], nxt())}){{{var}}}'

    def x(c):
        f = c[1]
        if c[0] == 'S' and not f:
            f = 'X'
        return c[0] + (f'[{f}]' if f else '')

    def lex(c):
        if not cplx(c):
            return f'{x(c)}{{_}}'
        if same(c[1], c[2]):
            a = fresh(c[2], nxt())
            slot[0] += 1
            return f'({a}{c[0]}{a}<{slot[0]}>){{_}}'
        r = lex(c[1])
        a = fresh(c[2], nxt())
        slot[0] += 1
        return f'({r}{c[0]}{a}<{slot[0]}>){{_}}'
    return lex(c)


def unx(c):
    """Without the difference between S and S[X]."""
    if not cplx(c):
        return (c[0], '') if c[1] == 'X' else c
    return (c[0], unx(c[1]), unx(c[2]))


def of(cat):
    """Structure of a bobcat Category through its public attributes."""
    if cat.complex:
        return (cat.dir, of(cat.result), of(cat.argument))
    return (str(cat.atom), str(cat.feature))


def bare(c):
    """Without features."""
    if not cplx(c):
        return (c[0],)
    return (c[0], bare(c[1]), bare(c[2]))


def unify(a, b, feats):
    """Whether two categories unify; collects what S[X] got bound to."""
    if cplx(a) != cplx(b):
        return False
    if cplx(a):
        return (a[0] == b[0] and unify(a[1], b[1], feats)
                and unify(a[2], b[2], feats))
    if a[0] != b[0]:
        return False
    if a[0] != 'S' or a[1] == b[1]:
        return True
    if a[1] == 'X':
        feats.add(b[1])
        return True
    if b[1] == 'X':
        feats.add(a[1])
        return True
    return False


def instance(c, got, feats):
    """`got` is `c` with S[X] replaced by the feature it was bound to; left
    as it is only if it was bound to nothing definite."""
    if cplx(c) != cplx(got):
        return False
    if cplx(c):
        return (c[0] == got[0] and instance(c[1], got[1], feats)
                and instance(c[2], got[2], feats))
    if c[0] != got[0]:
        return False
    if c[1] == 'X' and len(feats) == 1 and not feats & {'X', ''}:
        return got[1] in feats
    return c[1] == got[1] or (c[1] == 'X' and got[1] in feats)


def binary_ok(rule, l, r, res, grammar):
    """Whether `rule` licenses l r -> res."""
    feats = set()
    if rule == 'FA':
        return (l[0] == '/' and unify(l[2], r, feats)
                and instance(l[1], res, feats))
    if rule == 'BA':
        return (r[0] == '\\' and unify(r[2], l, feats)
                and instance(r[1], res, feats))
    if rule in ('FC', 'GFC', 'BC', 'GBC', 'BX', 'GBX'):
        main, sub = (l, r) if rule[-2] == 'F' else (r, l)
        if not (cplx(main) and cplx(sub)):
            return False
        if main[0] != ('/' if rule[-2] == 'F' else '\\'):
            return False
        depth = 1 if rule[0] != 'G' else None
        spine, y = [], sub
        while cplx(y):
            spine.append((y[0], y[2]))
            y = y[1]
            if depth and len(spine) > depth:
                return False
            if not depth and len(spine) < 2:
                continue
            feats = set()
            if unify(main[2], y, feats):
                want = main[1]
                for d, a in reversed(spine):
                    want = (d, want, a)
                inner = spine[-1][0]
                if rule == 'FC' and inner != '/':
                    continue
                if rule == 'BC' and inner != '\\':
                    continue
                if rule == 'BX' and inner != '/':
                    continue
                if instance(want, res, feats):
                    return True
        return False
    if rule == 'CONJ':
        return ((l[0] in ('conj', ',', ';') and not cplx(l))
                and res == ('\\', r, r))
    if rule == 'ADJ_CONJ':
        return l == ('conj', '') and r[0] == 'N' and res == r
    if rule == 'LP':
        return not cplx(l) and l[0] in PUNCT and (
            res == r or changed(grammar, l, r, res))
    if rule == 'RP':
        return not cplx(r) and r[0] in PUNCT and (
            res == l or changed(grammar, l, r, res))
    return False


def matches(pattern, c):
    """Pattern matching: a missing feature in the pattern is a wildcard."""
    if cplx(pattern) != cplx(c):
        return False
    if cplx(pattern):
        return (pattern[0] == c[0] and matches(pattern[1], c[1])
                and matches(pattern[2], c[2]))
    return pattern[0] == c[0] and pattern[1] in ('', c[1])


def similar(pattern, c):
    return matches(pattern, c) or unx(pattern) == unx(c)


def changed(grammar, l, r, res):
    for _, a, b, out, _ in grammar.type_changing_rules:
        a, o = read(a), read(out)
        b = None if b is None else read(b)
        if (b is None) != (r is None):
            continue
        if similar(a, l) and (b is None or similar(b, r)) \
                and unx(o) == unx(res):
            return True
    return False


def raised(grammar, c, res):
    import re
    for a, out, _ in grammar.type_raising_rules:
        o = read(re.sub(r'\{.\}|<\d>', '', out))
        if similar(read(a), c) and unx(o) == unx(res):
            return True
    return False


LEX = ['N', 'NP', 'NP[nb]/N', 'N/N', r'S[dcl]\NP', r'(S[dcl]\NP)/NP',
       r'((S[dcl]\NP)/NP)/NP', r'(S[dcl]\NP)/PP', 'PP/NP', r'(NP\NP)/NP',
       r'(S\NP)\(S\NP)', r'(S\NP)/(S\NP)', 'S/S', r'S[dcl]\S[dcl]',
       r'((S\NP)\(S\NP))/NP', r'(NP\NP)/(S[dcl]\NP)', r'(NP\NP)/(S[dcl]/NP)',
       r'(S[dcl]\NP)/(S[to]\NP)', r'(S[to]\NP)/(S[b]\NP)', r'S[b]\NP',
       r'(S[b]\NP)/NP', r'(S[dcl]\NP)/(S[b]\NP)', 'conj', ',', ';', '.', ':',
       r'S[ng]\NP', r'(S[ng]\NP)/NP', r'S[pss]\NP', r'(N/N)/(N/N)',
       r'(S[dcl]\NP)/S[em]', 'S[em]/S[dcl]', r'S\S', 'NP[expl]', 'N[num]',
       r'(S[dcl]\NP)/(S[adj]\NP)', r'S[adj]\NP', 'N/PP', r'NP\NP',
       r'((S[b]\NP)/PP)/NP', 'LRB', 'RRB', r'((S\NP)\(S\NP))/S[dcl]',
       r'((S\NP)\(S\NP))/((S\NP)\(S\NP))', r'(S[dcl]\NP)\(S[dcl]\NP)',
       r'((S\NP)/(S\NP))/((S\NP)/(S\NP))', r'(S[b]\NP)/(S[b]\NP)',
       r'(S[dcl]\S[dcl])\NP', r'S[wq]/(S[dcl]\NP)', r'N\N', 'PP']
TC = [(1, 'N', None, 'NP', False), (2, r'S[pss]\NP', None, r'NP\NP', True),
      (3, r'S[ng]\NP', None, r'(S\NP)\(S\NP)', True),
      (4, r'S[adj]\NP', None, r'NP\NP', True),
      (5, 'N[num]', None, 'NP', False),
      (6, r'S[to]\NP', None, r'(S\NP)\(S\NP)', True),
      (50, 'S[dcl]/S[dcl]', ',', 'S/S', True),
      (51, ',', 'NP', r'(S\NP)\(S\NP)', False),
      (52, r'S[dcl]\S[dcl]', ',', 'S/S', True),
      (53, r'S[ng]\NP', ',', 'S/S', True),
      (54, ',', r'S[ng]\NP', r'(S\NP)\(S\NP)', True)]
TR = [('NP', '(S[X]{Y}/(S[X]{Y}\\NP{_}){Y}){Y}', '+'),
      ('NP', '((S[X]{Y}\\NP{Z}){Y}\\((S[X]{Y}\\NP{Z}){Y}/NP{_}){Y}){Y}',
       '+'),
      ('PP', '((S[X]{Y}\\NP{Z}){Y}\\((S[X]{Y}\\NP{Z}){Y}/PP{_}){Y}){Y}',
       '+')]
EXTRA = ['NP[nb]', 'S[dcl]', r'S[to]\NP', 'S[dcl]/NP', 'S', 'S[b]', 'S[em]',
         r'S/(S\NP)', r'(S\NP)\((S\NP)/NP)', r'(S\NP)\((S\NP)/PP)', r'N\N',
         r'(S\NP)\(S\NP)', r'PP\PP', r'(S[dcl]\NP)\(S[dcl]\NP)',
         'S[b]/NP', r'(S[b]\NP)/PP', 'S[wq]', r'(N/N)\(N/N)',
         r'((S[dcl]\NP)/NP)\((S[dcl]\NP)/NP)', 'S[dcl]/PP',
         r'(S[to]\NP)/NP', r'(S[dcl]\NP)/NP', r'(NP\NP)\(NP\NP)']


def uses_backslash_s(c):
    return False


def make_grammar(c):
    """(Grammar, lexical categories, label list)."""
    from lambeq.bobcat import Grammar
    lex = [t for t in LEX if c.p(.93)] or ['N']
    plain = list(dict.fromkeys(lex + EXTRA + [t[3] for t in TC]))
    cats = {t: markup(read(t)) for t in plain}
    density = c.choice([1, 1, 1, .93])
    pool = list(dict.fromkeys(plain))
    binary = []
    for a in pool:
        for b in pool:
            if density == 1 or c.p(density):
                binary.append((a, b) if c.p(.5) else (f'({a})' if '/' in a
                              or '\\' in a else a, b))
    tc = [t for t in TC if c.p(.85)]
    tr = [t for t in TR if c.p(.85)]
    g = Grammar(cats, binary, tc, tr)
    labels = [t for t in pool if c.p(.7)]
    for t in list(pool):
        if c.p(.4):
            labels.append(t + '[conj]')
    for chain in ['NP::N', r'S/(S\NP)::NP', r'S/(S\NP)::NP::N',
                  r'(S\NP)\((S\NP)/NP)::NP::N', r'(S\NP)\((S\NP)/NP)::NP',
                  r'NP\NP::S[pss]\NP', r'(S\NP)\(S\NP)::S[ng]\NP',
                  'NP::N[num]', r'NP\NP::S[adj]\NP',
                  r'(S\NP)\((S\NP)/PP)::PP', r'S/(S\NP)::NP[nb]']:
        if c.p(.7):
            labels.append(chain)
    c.rng.shuffle(labels)
    return g, lex, labels


def rand_sentence(c, lex, labels, n=None, words=None):
    """A random bobcat Sentence with spread or tied scores."""
    from lambeq.bobcat import Sentence, Supertag
    if words is None:
        words = [c.choice(['a', 'b', 'the', 'and', ',', 'run', 'é', 'x y'])
                 for _ in range(n or c.int(1, 6))]
    n = len(words)
    mode = c.choice(['tie', 'grid', 'real', 'real', 'extreme'])

    def score():
        if mode == 'tie':
            return -1.0
        if mode == 'grid':
            return -c.int(0, 3) / 4
        if mode == 'extreme':
            return c.choice([0.0, -1e-9, -50.0, -1e4, -1.0])
        return -c.rng.expovariate(.5)
    tags = []
    for _ in words:
        k = c.int(1, min(5, len(lex)))
        tags.append([Supertag(t, score()) for t in c.rng.sample(lex, k)])
    if n > 1 and c.p(.05):          # the tagger may give a word nothing
        tags[c.int(0, n - 1)] = []
        c.ev('untagged_word')
    spans = {}
    keep = c.choice([1, 1, 1, .85])
    for i in range(n):
        for j in range(i, n):
            if c.p(keep) or (i == 0 and j == n - 1):
                m = c.int(0, len(labels))
                spans[i, j] = {k: score() for k in
                               c.rng.sample(range(len(labels)), m)}
    return Sentence(words, tags, spans)


def likely_sentence(c, g, lex, labels):
    """Words tagged along a plausible derivation (so that parses exist)."""
    pat = c.choice([
        ['NP', r'(S[dcl]\NP)/NP', 'NP'], ['N', r'S[dcl]\NP'],
        ['NP[nb]/N', 'N/N', 'N', r'(S[dcl]\NP)/NP', 'NP[nb]/N', 'N'],
        ['N', 'conj', 'N', r'S[dcl]\NP'],
        ['NP', r'(S[dcl]\NP)/NP', 'N', r'(S\NP)\(S\NP)'],
        ['NP', r'(S\NP)/(S\NP)', r'(S[dcl]\NP)/NP', 'NP', '.'],
        ['NP', r'((S[dcl]\NP)/NP)/NP', 'NP', 'NP[nb]/N', 'N'],
        ['NP', r'(NP\NP)/(S[dcl]/NP)', 'NP', r'(S[dcl]\NP)/NP',
         r'S[dcl]\NP'],
        ['NP', r'(S[dcl]\NP)/NP', 'NP', 'conj', 'NP'],
        ['NP', r'(S[dcl]\NP)/NP', 'conj', r'(S[dcl]\NP)/NP', 'NP'],
        ['NP', r'(S[dcl]\NP)/(S[to]\NP)', r'(S[to]\NP)/(S[b]\NP)',
         r'(S[b]\NP)/NP', 'N'],
        ['NP', r'(S[dcl]\NP)/(S[b]\NP)', r'((S[b]\NP)/PP)/NP', 'NP',
         'PP/NP', 'NP'],
        ['NP', ',', 'NP', 'conj', 'NP', r'S[dcl]\NP'],
        ['S/S', ',', 'NP', r'S[dcl]\NP', '.'],
        ['N', r'(S[dcl]\NP)/S[em]', 'S[em]/S[dcl]', 'N', r'S[dcl]\NP'],
        ['NP', r'S[dcl]\NP', r'S[ng]\NP'], ['S[wq]/(S[dcl]\\NP)',
                                            r'(S[dcl]\NP)/NP', 'N'],
        ['NP', r'(S[dcl]\NP)/PP', 'PP', ',', r'S[ng]\NP'],
        ['NP', r'(S[dcl]\NP)/NP', 'NP', r'((S\NP)\(S\NP))/NP', 'NP'],
        ['N', r'(S[dcl]\NP)/NP', r'(N/N)/(N/N)', 'N/N', 'N', '.'],
        ['NP', r'S[dcl]\NP', r'S[dcl]\S[dcl]', r'S\S'],
        ['NP', r'S[dcl]\NP', r'((S\NP)\(S\NP))/S[dcl]', 'NP',
         r'S[dcl]\NP'],
        ['NP', r'S[dcl]\NP', r'((S\NP)\(S\NP))/((S\NP)\(S\NP))',
         r'(S[dcl]\NP)\(S[dcl]\NP)'],
        ['NP', r'(S[dcl]\NP)/(S[b]\NP)', r'((S\NP)/(S\NP))/((S\NP)/(S\NP))',
         r'(S[b]\NP)/(S[b]\NP)', r'S[b]\NP'],
        ['conj', 'N', 'NP', r'S[dcl]\NP']])
    s = rand_sentence(c, lex, labels, n=len(pat))
    from lambeq.bobcat import Supertag
    for tags, t in zip(s.input_supertags, pat):
        if tags and t in g.categories and all(x.category != t for x in tags):
            tags.append(Supertag(t, tags[0].probability))
    return s
