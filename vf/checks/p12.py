"""P12 The CCG chart parser returns valid derivations of exactly its input."""
import copy
import math

from lambeq.bobcat import Category, ChartParser, Sentence, Supertag
from lambeq.text2diagram import BobcatParser
from lambeq.text2diagram.ccg_rule import CCGRule

from vf import bob
from vf.bob import cplx, of, read, unx
from vf.core import Family

RULE = 'distinct (rule, categories) steps and parsed sentences'
REQUIRED = ['parsed', 'no_parse', 'several_roots', 'one_word', 'root_filter',
            'history', 'converted', 'unary_chain', 'eisner', 'pruned',
            'missing_cat', 'missing_span', 'limit', 'category_text', 'found',
            'found_compositions'] + [
    f'step_{r}' for r in ['FA', 'BA', 'FC', 'BC', 'BX', 'GFC', 'GFC3', 'GBX',
                          'GBX3', 'CONJ',
                          'ADJ_CONJ', 'LIST', 'LP', 'RP', 'TC', 'LPTC',
                          'RPTC', 'FTR', 'BTR']] + [
    f'rule_{r}' for r in ['L', 'U', 'BA', 'FA', 'BC', 'FC', 'BX', 'GFC', 'GBX',
                          'LP', 'RP', 'BTR', 'FTR', 'CONJ', 'ADJ_CONJ']]


def make(c):
    g, lex, labels = bob.make_grammar(c)
    kw = dict(eisner_normal_form=c.p(.5),
              max_parse_trees=c.choice([10 ** 6, 10 ** 6, 10 ** 6, 40]),
              beam_size=c.choice([1, 2, 4, 16, 10 ** 4]),
              input_tag_score_weight=c.choice([1., 1., .5, 0., 2.]),
              missing_cat_score=c.choice([0, 1e-3, .5, 1e-9]),
              missing_span_score=c.choice([0, 1e-3, .5, 1e-9]))
    roots = c.choice([None, None, None, None, ['S[dcl]'], ['S'], ['NP', 'N'],
                      ['S[dcl]', 'NP[nb]', r'S[dcl]\NP']])
    if roots:
        for r in roots:
            Category.parse(r)
        c.ev('root_filter')
    if kw['eisner_normal_form']:
        c.ev('eisner')
    if kw['max_parse_trees'] < 100:
        c.ev('limit')

    def build():
        return ChartParser(copy.deepcopy(g), list(labels), roots, **kw)
    return g, lex, labels, roots, kw, build


class Scorer:
    def __init__(self, g, labels, kw, s, c):
        self.g, self.kw, self.s, self.c = g, kw, s, c
        self.table = {}
        for k, t in enumerate(labels):
            chain = t.split('::')
            if len(chain) == 1 and t.endswith('[conj]'):
                b = unx(read(t[:-6]))
                key = ('conj', ('\\', b, b))
            elif len(chain) > 1:
                key = ('unary',) + tuple(unx(read(x)) for x in chain)
            else:
                key = ('binary', unx(read(t)))
            self.table[key] = k

    def label(self, key, span):
        k = self.table.get(key)
        if k is None and key[0] == 'binary' and key[1][0] == 'NP':
            k = self.table.get(('binary', ('NP', '')))
        if k is None:
            self.c.ev('missing_cat')
            m = self.kw['missing_cat_score']
            return math.log(m) if m else -math.inf
        sc = self.s.span_scores[span]
        if k not in sc:
            self.c.ev('missing_span')
            m = self.kw['missing_span_score']
            return math.log(m) if m else -math.inf
        return sc[k]


def walk(c, t, start, sc, leaves):
    """Check one parse tree from `start`; returns (end, score of its
    words and inner spans, score with its own label)."""
    g, kw, s = sc.g, sc.kw, sc.s
    rule, cat = t.rule.name, of(t.cat)
    c.ev('rule_' + rule)
    if t.left is None:
        c.check(t.right is None and rule == 'L', 'leaf-shape', rule)
        c.check(t.is_leaf, 'leaf-shape')
        c.check(start < len(s.words), 'too-many-words', start)
        c.eq(t.word, s.words[start], 'word-mismatch', f'position {start}')
        c.eq(t.variable.filler.index, start + 1, 'word-index')
        leaves.append(t)
        tags = [x for x in s.input_supertags[start]
                if of(Category.parse(g.categories[x.category])) == cat]
        c.check(tags, 'leaf-category-not-supplied',
                lambda: f'{cat} for {s.input_supertags[start]}')
        vals = [kw['input_tag_score_weight'] * x.probability for x in tags]
        c.check(any(close(v, t.score) for v in vals), 'leaf-score',
                lambda: f'{t.score} not in {vals}')
        return start, t.score
    if t.right is None:
        chain, base = [t], t.left
        while base.right is None and base.left is not None:
            chain.append(base)
            base = base.left
        if len(chain) > 1:
            c.ev('unary_chain')
        child = of(t.left.cat)
        ok = (bob.raised(g, child, cat) if rule in ('FTR', 'BTR')
              else rule == 'U' and bob.changed(g, child, None, cat))
        c.check(ok, 'unlicensed-unary', lambda: f'{rule}: {child} -> {cat}')
        if rule in ('FTR', 'BTR'):
            c.eq(rule, 'FTR' if cat[0] == '/' else 'BTR', 'unary-direction')
        c.sig(rule, child, cat)
        end, _ = walk(c, t.left, start, sc, leaves)
        key = ('unary',) + tuple(unx(of(x.cat)) for x in chain) \
            + (unx(of(base.cat)),)
        if base.left is not None:
            inner = base.left.score + base.right.score
        else:
            inner = base.score
        want = inner + sc.label(key, (start, end))
        c.check(close(want, t.score), 'score-not-sum',
                lambda: f'{rule} {cat}: {t.score} instead of {want}')
        return end, t.score
    l, r = of(t.left.cat), of(t.right.cat)
    pair = (unx(l), unx(r))
    c.check(pair in sc.pairs, 'pair-not-in-grammar', pair)
    c.check(bob.binary_ok(rule, l, r, cat, g), 'unlicensed-step',
            lambda: f'{rule}: {bob.show(l)} {bob.show(r)} -> {bob.show(cat)}')
    if kw['eisner_normal_form']:
        lr, rr = t.left.rule.name, t.right.rule.name
        c.check(not (rule in ('FA', 'FC', 'GFC') and lr in ('FC', 'GFC')),
                'not-normal-form', f'{lr} {rr} {rule}')
        c.check(not (rule in ('BA', 'BC', 'GBC') and rr in ('BC', 'GBC')),
                'not-normal-form', f'{lr} {rr} {rule}')
    c.sig(rule, l, r, cat)
    mid, _ = walk(c, t.left, start, sc, leaves)
    end, _ = walk(c, t.right, mid + 1, sc, leaves)
    key = ('conj' if rule == 'CONJ' else 'binary', unx(cat))
    want = t.left.score + t.right.score + sc.label(key, (start, end))
    c.check(close(want, t.score), 'score-not-sum',
            lambda: f'{rule} {cat}: {t.score} instead of {want}')
    return end, t.score


def close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def signature(t):
    if t.left is None:
        return (of(t.cat), t.word)
    return (t.rule.name, of(t.cat), signature(t.left),
            signature(t.right) if t.right else None)


def outcome(res):
    return [(signature(t), t.score) for t in res.root]


def judge(c, g, labels, roots, kw, s, res):
    trees = list(res.root)
    c.eq(len(res), len(trees), 'result-list')
    c.eq(bool(res), bool(trees), 'result-list')
    sc = Scorer(g, labels, kw, s, c)
    sc.pairs = g.vf_pairs
    if not trees:
        c.ev('no_parse')
    else:
        c.ev('parsed')
        c.eq(res.words, s.words, 'result-words')
        c.check(res[0] is trees[0], 'result-list')
        best = max(t.score for t in trees)
        c.eq(res[0].score, best, 'best-not-first')
        c.check(all(a.score >= b.score for a, b in zip(trees, trees[1:])),
                'result-order')
    if len(trees) > 1:
        c.ev('several_roots')
    for t in trees[:6]:
        leaves = []
        end, _ = walk(c, t, 0, sc, leaves)
        c.eq(end, len(s.words) - 1, 'words-not-covered')
        c.eq([x.word for x in leaves], s.words, 'word-mismatch')
        cat = of(t.cat)
        if roots:
            c.check(any(bob.matches(read(r), cat) for r in roots),
                    'root-not-allowed', f'{cat} with {roots}')
        convert(c, t)
    if len(s.words) == 1:
        c.ev('one_word')


def biclosed(cat):
    if cplx(cat):
        return (cat[0], biclosed(cat[1]), biclosed(cat[2]))
    return (bob.NAMES.get(cat[0], 'punc'),)


def convert(c, t):
    from vf.ccg import from_ccg
    build = getattr(BobcatParser, "_build_ccgtree", None)
    if build is None:
        return
    tree = build(t)

    def same(a, b):
        c.eq(from_ccg(a.biclosed_type), biclosed(of(b.cat)),
             'conversion-category')
        kids = [k for k in (b.left, b.right) if k is not None]
        c.eq(len(a.children), len(kids), 'conversion-shape')
        if not kids:
            c.eq(a.text, b.word, 'conversion-word')
        else:
            name = b.rule.name
            c.eq(a.rule, CCGRule('FA' if name == 'ADJ_CONJ' else name),
                 'conversion-rule')
        for x, y in zip(a.children, kids):
            same(x, y)
    same(tree, t)
    c.ev('converted')


def sentence(c, g, lex, labels):
    if c.p(.75):
        return bob.likely_sentence(c, g, lex, labels)
    return bob.rand_sentence(c, lex, labels, c.int(1, 5))


def parse(c):
    g, lex, labels, roots, kw, build = make(c)
    g.vf_pairs = {(unx(read(strip(a))), unx(read(strip(b))))
                  for a, b in g.binary_rules}
    c.note(f'settings {kw} roots {roots} lexicon {lex}')
    p = build()
    first = {}
    hist = [sentence(c, g, lex, labels) for _ in range(c.int(2, 5))]
    order = hist + [c.choice(hist) for _ in range(2)]
    if c.p(.3):
        # settings may be changed and restored between parses
        p.set_root_cats(['NP'] if c.p(.5) else None)
        p(copy.deepcopy(c.choice(hist)))
        p.set_root_cats(roots)
    for s in order:
        before = copy.deepcopy(s)
        c.note(s)
        res = p(s)
        c.eq(s, before, 'sentence-altered')
        o = outcome(res)
        if id(s) in first:
            c.ev('history')
            c.eq(o, first[id(s)], 'depends-on-history')
        else:
            first[id(s)] = o
            judge(c, g, labels, roots, kw, s, res)
    fresh = build()
    s = c.choice(hist)
    c.eq(outcome(fresh(s)), first[id(s)], 'depends-on-history',
         'fresh parser')
    if kw['beam_size'] < 10:
        c.ev('pruned')
    c.sample(f'{hist[0].words} -> {str(first[id(hist[0])])[:200]}')


GOLD_ATOMS = [('N', ''), ('NP', ''), ('S', 'dcl'), ('PP', '')]


def gold_tree(c, cat, n):
    """A derivation of `cat` over n words, by applications and harmonic
    compositions: (rule, category, left, right) or ('L', category)."""
    if n == 1:
        return ('L', cat)
    k = c.int(1, n - 1)
    side = c.choice('/\\')
    if cplx(cat) and cat[0] == side and c.p(.5):
        mid = gold_cat(c, 1)
        main, sub = (side, cat[1], mid), (side, mid, cat[2])
        rule = 'FC' if side == '/' else 'BC'
    else:
        sub = gold_cat(c, 1)
        main = (side, cat, sub)
        rule = 'FA' if side == '/' else 'BA'
    if side == '/':
        return (rule, cat, gold_tree(c, main, k), gold_tree(c, sub, n - k))
    return (rule, cat, gold_tree(c, sub, k), gold_tree(c, main, n - k))


def gold_cat(c, d):
    if d == 0 or c.p(.6):
        return c.choice(GOLD_ATOMS)
    return (c.choice('/\\'), gold_cat(c, d - 1), gold_cat(c, d - 1))


def gold_leaves(t):
    return [t] if t[0] == 'L' else gold_leaves(t[2]) + gold_leaves(t[3])


def gold_cats(t):
    return [t[1]] + [x for k in t[2:] for x in gold_cats(k)]


def gold_score(t, sc, at=0):
    if t[0] == 'L':
        k = bob.show(t[1])
        return max(sc.kw['input_tag_score_weight'] * x.probability
                   for x in sc.s.input_supertags[at] if x.category == k), at
    a, mid = gold_score(t[2], sc, at)
    b, end = gold_score(t[3], sc, mid + 1)
    return a + b + sc.label(('binary', unx(t[1])), (at, end)), end


def settings(c):
    return dict(eisner_normal_form=False, max_parse_trees=10 ** 6,
                beam_size=10 ** 6,
                input_tag_score_weight=c.choice([1., .5, 2.]),
                missing_cat_score=c.choice([1e-3, .5, 1e-9]),
                missing_span_score=c.choice([1e-3, .5, 1e-9]))


def found(c):
    """Nothing is lost without limits: a sentence that has a derivation gets
    a parse at least as good."""
    for _ in range(20):
        t = gold_tree(c, gold_cat(c, 1), c.int(2, 6))
        cats = list(dict.fromkeys(gold_cats(t)))
        if max(len(str(x)) for x in cats) < 260:
            break
    else:
        c.skip()
    c.note(f'derivation {t}')
    texts = [bob.show(x) for x in cats]
    try:
        markup = {k: bob.markup(x) for k, x in zip(texts, cats)}
    except StopIteration:
        c.skip()
    from lambeq.bobcat import Grammar
    pairs = [(a, b) for a in texts for b in texts]
    g = Grammar(markup, pairs, [], [])
    labels = [k for k in texts if c.p(.7)]
    leaves = gold_leaves(t)
    s = bob.rand_sentence(c, texts, labels, n=len(leaves))
    for i, leaf in enumerate(leaves):
        k = bob.show(leaf[1])
        if all(x.category != k for x in s.input_supertags[i]):
            s.input_supertags[i].insert(
                c.int(0, len(s.input_supertags[i])),
                Supertag(k, -c.rng.expovariate(.5)))
        for j in range(i, len(leaves)):
            s.span_scores.setdefault((i, j), {})
    kw = settings(c)
    root = bob.show(t[1])
    roots = c.choice([None, [root]])
    if roots:
        Category.parse(root)
    p = ChartParser(g, labels, roots, **kw)
    res = p(s)
    sc = Scorer(g, labels, kw, s, c)
    want, _ = gold_score(t, sc)
    c.note(s)
    got = [x.score for x in res.root if of(x.cat) == t[1]]
    c.check(got, 'derivation-not-found', root)
    c.check(max(got) >= want or close(max(got), want), 'better-parse-lost',
            lambda: f'{got} but {t} scores {want}')
    c.ev('found')
    c.ev('found_compositions', sum(k in str(t) for k in ("'FC'", "'BC'")))
    c.sig('found', t)


def steps(c):
    """Every kind of step is taken where it is licensed."""
    cat = gold_cat(c, 2)
    y, z = gold_cat(c, 1), gold_cat(c, 1)
    kind = c.choice(['FA', 'BA', 'FC', 'BC', 'BX', 'GFC', 'GFC3', 'GBX',
                     'GBX3', 'CONJ', 'ADJ_CONJ', 'LIST', 'LP', 'RP', 'TC', 'FTR', 'BTR', 'LPTC', 'RPTC'])
    tc, tr, want, rule = [], [], cat, kind
    pun = (c.choice([k for k in bob.PUNCT]), '')
    if kind == 'FA':
        pair = ('/', cat, y), y
    elif kind == 'BA':
        pair = y, ('\\', cat, y)
    elif kind == 'FC':
        pair, want = (('/', cat, y), ('/', y, z)), ('/', cat, z)
    elif kind == 'BC':
        pair, want = (('\\', y, z), ('\\', cat, y)), ('\\', cat, z)
    elif kind == 'BX':
        # not where a noun is crossed
        y = c.choice([('S', 'dcl'), ('PP', ''),
                      ('\\', ('S', 'dcl'), ('NP', ''))])
        pair, want = (('/', y, z), ('\\', cat, y)), ('/', cat, z)
        if z == ('\\', cat, y):
            c.skip()
    elif kind == 'GFC':
        y = ('\\', ('S', 'dcl'), ('NP', ''))
        pair = ('/', cat, y), ('/', ('/', y, z), ('PP', ''))
        want = ('/', ('/', cat, z), ('PP', ''))
    elif kind in ('GFC3', 'GBX', 'GBX3'):
        # one or two more arguments than plain composition reaches past
        y = ('\\', ('S', c.choice(['dcl', 'b', 'to'])), ('NP', ''))
        sub, want = y, cat
        args = [z, gold_cat(c, 1), ('PP', '')][-3 if '3' in kind else -2:]
        for a in args:
            sub, want = ('/', sub, a), ('/', want, a)
        pair = (('/', cat, y), sub) if kind == 'GFC3' else (
            sub, ('\\', cat, y))
        rule = kind[:3]
    elif kind == 'CONJ':
        pair, want = (('conj', ''), cat), ('\\', cat, cat)
    elif kind == 'ADJ_CONJ':
        pair, want = (('conj', ''), ('N', '')), ('N', '')
    elif kind == 'LIST':
        pair, want = ((c.choice(',;'), ''), cat), ('\\', cat, cat)
        rule = 'CONJ'
    elif kind == 'LP':
        pair = pun, cat
    elif kind == 'RP':
        pair = cat, pun
    elif kind in ('TC', 'LPTC', 'RPTC'):
        used = c.choice([x for x in bob.TC if (x[2] is None) == (kind == 'TC')
                         and (kind != 'LPTC' or x[1] == ',')
                         and (kind != 'RPTC' or x[2] == ',')])
        tc = [x for x in bob.TC if x is used or c.p(.5)]
        c.rng.shuffle(tc)
        if kind == 'TC':
            pair = read(used[1]), ('\\', cat, read(used[3]))
            rule = 'BA'
        else:
            pair, want = (read(used[1]), read(used[2])), read(used[3])
            rule = kind[:2]
    elif kind == 'FTR':
        # S/(S\\NP) (S\\NP)/Z: a phrase with the object missing
        pair = ('NP', ''), ('/', read(r'S[dcl]\NP'), z)
        want, rule, tr = ('/', ('S', 'dcl'), z), 'FC', bob.TR
    else:
        # A raised over (S\NP)/A, then Z\(S\\NP)
        a = c.choice(['NP', 'PP'])
        tr = bob.TR
        vp = read(r'S\NP')
        pair = (a, ''), ('\\', cat, vp)
        want, rule = ('\\', cat, ('/', vp, (a, ''))), 'BC'
    if len(str(pair)) > 400:
        c.skip()
    c.note(f'{kind} {[bob.show(x) for x in pair]}')
    plain = [bob.show(x) for x in pair] + [bob.show(want)] + [
        t[3] for t in tc] + ['N', 'NP']
    try:
        markup = {k: bob.markup(read(k)) for k in plain}
    except StopIteration:
        c.skip()
    from lambeq.bobcat import Grammar
    import re
    extra = [re.sub(r'\{.\}|<\d>', '', t[1]).replace('[X]', '') for t in tr]
    pool = list(dict.fromkeys(plain + [strip(x) for x in extra]))
    g = Grammar(markup, [(a, b) for a in pool for b in pool], tc, tr)
    g.vf_pairs = {(unx(read(a)), unx(read(b))) for a, b in g.binary_rules}
    labels = [k for k in pool if c.p(.5)]
    s = Sentence(['v', 'w'], [[Supertag(bob.show(x), -c.rng.random())]
                              for x in pair],
                 {(0, 0): {}, (0, 1): {}, (1, 1): {}})
    kw = settings(c)
    kw['eisner_normal_form'] = c.p(.5)
    c.note(f'pool {pool} settings {kw}')
    res = ChartParser(g, labels, None, **kw)(s)
    got = [(t.rule.name, of(t.cat)) for t in res.root]
    c.check(any(r == rule and unx(k) == unx(want) for r, k in got),
            'step-not-taken', lambda: f'{rule} {bob.show(want)} not in {got}')
    judge(c, g, labels, None, kw, s, res)
    c.ev('step_' + kind)
    c.sig('step', kind, pair)


def strip(t):
    return t[1:-1] if t[0] == '(' and bracketed(t) else t


def bracketed(t):
    d = 0
    for k, x in enumerate(t):
        d += (x == '(') - (x == ')')
        if d == 0:
            return k == len(t) - 1


def rand_bob(c, d):
    if d == 0 or c.p(.3):
        a = c.choice(['N', 'NP', 'S', 'PP', 'conj', ',', '.'])
        f = c.choice(['', 'dcl', 'b', 'nb', 'X', 'to']) if a in ('S', 'NP') \
            else ''
        return (a, f)
    return (c.choice('/\\'), rand_bob(c, d - 1), rand_bob(c, d - 1))


def categories(c):
    a = rand_bob(c, 3)
    t = bob.show(a)
    if c.p(.5) and cplx(a):
        t = f'({t})'
    cat = Category.parse(t)
    c.eq(of(cat), a, 'category-text', t)
    c.eq(str(cat), bob.show(a), 'category-text', t)
    m = bob.markup(a) if len(str(a)) < 90 else None
    if m is not None:
        try:
            m = Category.parse(m)
        except StopIteration:
            c.skip()
        c.eq(unx(of(m)), unx(a), 'category-markup')
        c.eq(unx(of(Category.parse(repr(m)))), unx(a), 'category-repr')
    b = rand_bob(c, 3) if c.p(.4) else vary(c, a)
    other = Category.parse(bob.show(b))
    same = unx(a) == unx(b)
    # S and S[X] are interchangeable, other features are significant
    want = equal(a, b)
    c.eq(cat == other, want, 'category-equality', f'{a} {b}')
    if want:
        c.eq(hash(cat), hash(other), 'category-hash')
    c.eq(cat.matches(other), bob.matches(a, b), 'category-matches',
         f'{a} {b}')
    c.ev('category_text')
    c.sig('cat', a)
    del same


def equal(a, b):
    if cplx(a) != cplx(b):
        return False
    if cplx(a):
        return a[0] == b[0] and equal(a[1], b[1]) and equal(a[2], b[2])
    return a[0] == b[0] and (a[1] == b[1] or (
        a[0] == 'S' and a[1] in ('', 'X') and b[1] in ('', 'X')))


def vary(c, a):
    if not cplx(a):
        return (a[0], c.choice(['', 'X', a[1], 'dcl'])
                if a[0] in ('S', 'NP') else a[1])
    k = c.int(0, 2)
    if k == 0 and c.p(.3):
        return ('/' if a[0] == '\\' else '\\', a[1], a[2])
    return (a[0], vary(c, a[1]), vary(c, a[2]))


FAMILIES = [Family('parse', parse, 350, 9000),
            Family('found', found, 500, 9000),
            Family('steps', steps, 1000, 12000),
            Family('categories', categories, 800, 10000)]
