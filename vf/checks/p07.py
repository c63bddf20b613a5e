"""P07 box-level rewriting: types, untouched boxes, documented wirings."""
import numpy as np

from lambeq.backend import grammar as G
from lambeq.rewrite.base import (CollapseDomainRewriteRule,
                                 CoordinationRewriteRule, CurryRewriteRule,
                                 Rewriter, RewriteRule, SimpleRewriteRule,
                                 UnknownWordsRewriteRule)

from vf.core import Family
from vf.gen import (flat, mk, rand_ty, rand_box, rand_diagram, words_layers,
                    reduce_planar, layer, VOCAB, sentence_diagram)
from vf.sem import Interp, TooBig, key, box_key, typing_error

RULE = 'distinct (rules, input layers) in which at least one box is rewritten'
NAMED = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb',
         'prepositional_phrase', 'coordination', 'curry',
         'object_rel_pronoun', 'subject_rel_pronoun']
REQUIRED = [f'applied_{x}' for x in NAMED] + [
    'applied_collapse_left', 'applied_collapse_right', 'applied_unk',
    'applied_custom', 'meaning', 'no_match', 'rotated_match', 'dagger_match',
    'case_match', 'box_with_dom_kept', 'added_later', 'from_diagrams',
    'bad_rule_name', 'several_matches', 'direct_call']

N, S = ('n', 0), ('s', 0)
n, s = 'n', 's'
REL = {'that', 'which', 'who', 'whom', 'whose'}
# our own table: name -> (codomain, words or None)
TABLE = {
    'connector': (((s, 0), (s, -1)),
                  {'and', 'but', 'however', 'if', 'that', 'whether'}),
    'determiner': (((n, 0), (n, -1)), {'a', 'an', 'the'}),
    'postadverb': (((s, 1), (n, 2), (n, 1), (s, 0)), None),
    'preadverb': (((n, 1), (s, 0), (s, -1), (n, 0)), None),
    'auxiliary': (((n, 1), (s, 0), (s, -1), (n, 0)),
                  set("am are be been being is was were did do does 'd had "
                      "has have may might will".split())),
    'prepositional_phrase': (((s, 1), (n, 2), (n, 1), (s, 0), (n, -1)),
                             None),
    'object_rel_pronoun': (((n, 1), (n, 0), (n, -2), (s, -1)), REL),
    'subject_rel_pronoun': (((n, 1), (n, 0), (s, -1), (n, 0)), REL),
}
DEFAULT = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb',
           'prepositional_phrase']


def base(b):
    """Underlying unrotated box."""
    while True:
        if isinstance(b, G.Daggered):
            b = b.box
        elif b.z:
            b = b.rotate(-b.z)
        else:
            return b


def plain(b):
    return not isinstance(b, (G.Cup, G.Cap, G.Swap, G.Spider))


class Spec:
    """One rule: our own idea of when it matches and what it denotes.
    `image(I, box)` gives (array with axes dom+cod, [content])."""
    name = ''

    def matches(self, b):
        raise NotImplementedError

    def image(self, I, b):
        raise NotImplementedError


def content(b):
    return (b.name, flat(b.dom), flat(b.cod))


class Named(Spec):
    def __init__(self, name):
        self.name = name
        self.rule = name
        if name in TABLE:
            self.cod, self.words = TABLE[name]

    def matches(self, b):
        k = flat(b.cod)
        if self.name == 'curry':
            return bool(k) and (k[0][1] != 0 or k[-1][1] != 0)
        if flat(b.dom):
            return False
        if self.name == 'coordination':
            return b.name == 'and' and coordination(k)
        return k == self.cod and (self.words is None
                                  or b.name.lower() in self.words)

    def image(self, I, b):
        k = flat(b.cod)
        if self.name == 'curry':
            return curry_image(I, b)
        dn, ds = I.dim(n), I.dim(s)
        if self.name == 'determiner':
            return np.eye(dn), []
        if self.name == 'connector':
            return np.eye(ds), []
        if self.name == 'auxiliary':
            return np.einsum('ad,bc->abcd', np.eye(dn), np.eye(ds)), []
        if self.name == 'preadverb':
            w = G.Word(b.name, mk([(s, 0), (s, -1)]))
            return np.einsum('ad,bc->abcd', np.eye(dn), I.array(w)), \
                [content(w)]
        if self.name == 'postadverb':
            w = G.Word(b.name, mk([(s, 1), (s, 0)]))
            return np.einsum('bc,ad->abcd', np.eye(dn), I.array(w)), \
                [content(w)]
        if self.name == 'prepositional_phrase':
            w = G.Word(b.name, mk([(s, 1), (s, 0), (n, -1)]))
            return np.einsum('bc,ade->abcde', np.eye(dn), I.array(w)), \
                [content(w)]
        d3 = np.zeros((dn,) * 3)
        d3[range(dn), range(dn), range(dn)] = 1
        if self.name == 'object_rel_pronoun':
            return np.einsum('abc,d->abcd', d3, np.ones(ds)), []
        if self.name == 'subject_rel_pronoun':
            return np.einsum('abd,c->abcd', d3, np.ones(ds)), []
        if self.name == 'coordination':
            m = len(k) // 3
            ops, idx = [], []
            for i in range(m):
                d = I.dim(k[m + i][0])
                a = np.zeros((d,) * 3)
                a[range(d), range(d), range(d)] = 1
                ops += [a, [m - 1 - i, m + i, 2 * m + m - 1 - i]]
            return np.einsum(*ops, list(range(3 * m))), []
        raise AssertionError(self.name)


def coordination(k):
    if len(k) % 3 or not k:
        return False
    m = len(k) // 3
    mid = k[m:2 * m]
    return (k[:m] == tuple((a, z + 1) for a, z in reversed(mid))
            and k[2 * m:] == tuple((a, z - 1) for a, z in reversed(mid)))


def curry_image(I, b):
    k, dom = list(flat(b.cod)), list(flat(b.dom))
    i = 0
    while i < len(k) and k[i][1] > 0:
        i += 1
    j = len(k)
    while j > i and k[j - 1][1] < 0:
        j -= 1
    left, mid, right = k[:i], k[i:j], k[j:]
    nl = [(a, z - 1) for a, z in reversed(left)]
    nr = [(a, z + 1) for a, z in reversed(right)]
    nb = G.Box(b.name, mk(nl + dom + nr), mk(mid))
    A = I.array(nb)          # axes: left reversed, dom, right reversed, mid
    L, D, R, M = len(left), len(dom), len(right), len(mid)
    ax_left = list(range(L))[::-1]
    ax_dom = list(range(L, L + D))
    ax_right = list(range(L + D, L + D + R))[::-1]
    ax_mid = list(range(L + D + R, L + D + R + M))
    return A.transpose(ax_dom + ax_left + ax_mid + ax_right), [content(nb)]


class Collapse(Spec):
    def __init__(self, left):
        self.left = left
        self.name = 'collapse_left' if left else 'collapse_right'
        self.rule = (CollapseDomainRewriteRule(left=left)
                     if not left else CollapseDomainRewriteRule())

    def matches(self, b):
        return bool(flat(b.dom))

    def image(self, I, b):
        dom, cod = list(flat(b.dom)), list(flat(b.cod))
        D, C = len(dom), len(cod)
        if self.left:
            nb = G.Box(b.name, G.Ty(), mk(
                [(a, z + 1) for a, z in reversed(dom)] + cod))
            A = I.array(nb)
            return A.transpose(list(range(D))[::-1]
                               + list(range(D, D + C))), [content(nb)]
        nb = G.Box(b.name, G.Ty(), mk(
            cod + [(a, z - 1) for a, z in reversed(dom)]))
        A = I.array(nb)
        return A.transpose(list(range(C, C + D))[::-1] + list(range(C))), \
            [content(nb)]


class Unk(Spec):
    name = 'unk'

    def __init__(self, vocab, token='<UNK>', rule=None):
        self.vocab, self.token = vocab, token
        kw = {} if token == '<UNK>' else {'unk_token': token}
        self.rule = rule or UnknownWordsRewriteRule(
            [(w[0], mk(w[1])) if isinstance(w, tuple) else w
             for w in vocab], **kw)

    def matches(self, b):
        return (isinstance(b, G.Word) and b.name not in self.vocab
                and (b.name, flat(b.cod)) not in self.vocab)

    def image(self, I, b):
        w = G.Word(self.token, b.cod)
        return I.array(w), [content(w)]


class Custom(Spec):
    name = 'custom'

    def __init__(self, c):
        ph = SimpleRewriteRule.placeholder(rand_ty(c, 0, 2))
        self.ph = flat(ph.cod)
        t = ph.to_diagram()
        if c.p(.3):
            t = t @ G.Word(c.choice(VOCAB), rand_ty(c, 0, 1))
        t = t >> rand_diagram(c, dom=t.cod, layers=c.int(0, 3), width=4)
        self.template = t
        self.k0 = key(t)
        self.words = c.choice([None, ['Alice', 'THE', 'Bob'],
                               ['alice', 'the'], {'Straße', 'A', 'and'}])
        self.cs = c.p(.5)
        self.rule = SimpleRewriteRule(
            mk(flat(t.cod)), t, words=self.words,
            **({'case_sensitive': True} if self.cs else {}))

    def matches(self, b):
        if flat(b.dom) or flat(b.cod) != flat(self.template.cod):
            return False
        if self.words is None:
            return True
        if self.cs:
            return b.name in self.words
        return b.name.lower() in [w.lower() for w in self.words]

    def image(self, I, b):
        ph = SimpleRewriteRule.PLACEHOLDER_WORD
        out, cont = [], []
        for lay in self.template.layers:
            x = lay.box
            if isinstance(x, G.Word) and x.name == ph:
                x = G.Word(b.name, x.cod)
            if plain(x):
                cont.append(content(base(x)))
            out.append(layer(lay.left, x, lay.right))
        d = G.Diagram(dom=self.template.dom, cod=self.template.cod,
                      layers=out)
        plain_I = Interp(I.seed, I.dims)
        plain_I.cache = I.cache
        return plain_I(d), cont


class Rewritten(Interp):
    """Interprets boxes as the documented effect of the first rule that
    matches them."""

    def __init__(self, I, specs):
        super().__init__(I.seed, I.dims)
        self.I, self.specs = I, specs

    def array(self, box, kind=''):
        for sp in self.specs:
            if sp.matches(box):
                return np.asarray(sp.image(self.I, box)[0], dtype=complex)
        return self.I.array(box, kind)


SPECIAL = [TABLE[k][0] for k in TABLE]
WORDS = sorted({w for k in TABLE for w in (TABLE[k][1] or [])})


def word(c, specs):
    """A word likely to be near a rule."""
    r = c.int(0, 9)
    if r < 5:
        cod = list(c.choice(SPECIAL))
        if c.p(.15):
            i = c.int(0, len(cod) - 1)
            cod[i] = (cod[i][0], cod[i][1] + c.choice([1, -1]))
    elif r < 6:
        mid = [(c.choice('nsp'), c.choice([0, 0, 1, -1]))
               for _ in range(c.int(1, 2))]
        cod = ([(a, z + 1) for a, z in reversed(mid)] + mid
               + [(a, z - 1) for a, z in reversed(mid)])
        if c.p(.1):
            cod = cod[:-1]
    elif r < 7:
        cust = [sp for sp in specs if isinstance(sp, Custom)]
        cod = flat(c.choice(cust).template.cod) if cust else [N]
    else:
        cod = flat(rand_ty(c, 0, 4))
    name = c.choice(WORDS) if c.p(.6) else c.choice(VOCAB + ['and'] * 4)
    r = c.int(0, 5)
    if r == 0:
        name = name.upper()
    elif r == 1:
        name = name.capitalize()
    if c.p(.05):        # taken as it is written
        name = c.choice([' ', '']) + name + c.choice([' ', '  of', ''])
    if not cod and name.lower() == 'and':
        cod = [N]       # a wireless `and` is left open
    w = G.Word(name, mk(cod))
    if c.p(.12):
        w = w.rotate(c.choice([1, -1, 2]))
    if c.p(.08):
        w = w.dagger()
    return w


def diagram(c, specs):
    if c.p(.15):
        d = sentence_diagram(c, swaps=c.p(.5), max_words=4)
    else:
        d = G.Id()
        for _ in range(c.int(1, 3)):
            d = d @ word(c, specs)
            if c.p(.15):
                d = d @ rand_box(c, hi=2)
        layers, cur = reduce_planar(c, flat(d.cod))
        if c.p(.6):
            d = G.Diagram(dom=d.dom, cod=mk(cur), layers=d.layers + layers)
        if c.p(.35):
            cod = flat(d.cod)
            k = c.int(0, min(2, len(cod)))
            i = c.int(0, len(cod) - k)
            name = c.choice(WORDS + ['box', 'and'])
            t = c.choice(SPECIAL) if c.p(.6) else flat(rand_ty(c, 0, 3))
            if c.p(.2):     # no word, though it looks like one
                a = flat(rand_ty(c, 1, 1))[0]
                name, t = 'and', ((a[0], a[1] + 1), a, (a[0], a[1] - 1))
            if not t and name == 'and':
                name = 'box'
            d = d >> (G.Id(mk(cod[:i])) @ G.Box(name, mk(cod[i:i + k]),
                                                mk(t)) @ mk(cod[i + k:]))
        if c.p(.3):
            d = d >> rand_diagram(c, dom=d.cod, layers=2, width=8)
    if c.p(.08):
        d = d.dagger()
    if c.p(.08):
        d = d.rotate(c.choice([1, -1, 2]))
    return d


def pick(c):
    k = c.int(0, 9)
    if k == 0:
        return [Named(x) for x in DEFAULT], Rewriter()
    if k < 7:
        specs = [Named(x) for x in c.rng.sample(NAMED, c.int(0, 4))]
        if c.p(.2):
            specs.insert(c.int(0, len(specs)), Custom(c))
        if c.p(.1):
            specs.insert(c.int(0, len(specs)), unk(c))
        if c.p(.1):
            specs.insert(c.int(0, len(specs)), Collapse(c.p(.5)))
    elif k == 7:
        specs = [Collapse(c.p(.5))]
    elif k == 8:
        specs = [Custom(c) for _ in range(c.int(1, 2))]
    else:
        specs = [unk(c)]
    return specs, None


def unk(c):
    v = []
    for _ in range(c.int(0, 12)):
        if c.p(.7):
            v.append(c.choice(VOCAB + WORDS))
        else:
            v.append((c.choice(VOCAB + WORDS), c.choice(SPECIAL + [(N,)])))
    return Unk(v, c.choice(['<UNK>', 'UNK', 'x']))


def judge(c, d, specs, rewriter, label=''):
    k0 = key(d)
    c.note(f'{label} rules {[sp.name for sp in specs]}: {d!r}')
    expected, hits, kept = [], 0, []
    I = Interp(c.int(0, 3), dims={'n': 2, 's': 3, 'p': 2})
    for lay in d.layers:
        b = lay.box
        if not plain(b):
            continue
        u = base(b)
        for sp in specs:
            if sp.matches(u):
                hits += 1
                c.ev('applied_' + sp.name)
                if b.z:
                    c.ev('rotated_match')
                if isinstance(b, G.Daggered):
                    c.ev('dagger_match')
                if getattr(sp, 'words', None) and u.name not in sp.words:
                    c.ev('case_match')
                cont = sp.image(I, u)[1]
                if len(cont) > 1 and (b.z or isinstance(b, G.Daggered)):
                    expected = None
                if expected is not None:
                    expected += [(x, None) for x in cont]
                break
        else:
            if flat(u.dom) and flat(u.cod) in SPECIAL:
                c.ev('box_with_dom_kept')
            if expected is not None:
                expected.append((content(u), box_key(b)))
    r = rewriter(d)
    if hits:
        c.sig([sp.name for sp in specs], k0)
    if hits > 1:
        c.ev('several_matches')
    e = typing_error(r)
    c.check(e is None, 'ill-typed', lambda: f'{e}: {d!r} -> {r!r}')
    c.eq((flat(r.dom), flat(r.cod)), (flat(d.dom), flat(d.cod)),
         'type-changed', f'{d!r} -> {r!r}')
    c.eq(key(d), k0, 'input-altered')
    for sp in specs:
        if isinstance(sp, Custom):
            c.eq(key(sp.template), sp.k0, 'rule-altered')
    if not hits:
        c.ev('no_match')
        c.eq(key(r), k0, 'changed-without-match')
        c.check(r == d, 'changed-without-match')
        return r
    if expected is not None:
        got = [x.box for x in r.layers if plain(x.box)]
        c.eq([content(base(b)) for b in got], [x for x, _ in expected],
             'boxes', f'{d!r} -> {r!r}')
        for b, (_, k) in zip(got, expected):
            if k is not None:
                c.eq(box_key(b), k, 'kept-box-changed')
    try:
        a = I(r, limit=2 ** 17)
        t = Rewritten(I, specs)(d, limit=2 ** 17)
    except TooBig:
        c.ev('too_big')
        return r
    c.ev('meaning')
    c.close(a, t, 'wiring', f'{d!r} -> {r!r}', rtol=1e-6, atol=1e-7)
    return r


def rewrite(c):
    specs, rw = pick(c)
    rw = rw or Rewriter([sp.rule for sp in specs])
    r1 = None
    for _ in range(c.int(1, 3)):
        d = diagram(c, specs)
        r = judge(c, d, specs, rw)
        r2 = rw(d)
        c.check(key(r2) == key(r), 'not-repeatable', repr(d))
    c.sample(c.trail[-1])


def add_later(c):
    """Rules added between uses take effect after the ones there."""
    specs, rw = pick(c)
    if rw is not None:
        specs, rw = [Named('determiner')], None
    rw = Rewriter([])
    ds, active = [], []
    for i, sp in enumerate(specs + [Named(c.choice(NAMED))]):
        ds.append(diagram(c, specs))
        for d in ds:
            judge(c, d, active, rw, f'with {i} rules')
        rw.add_rules(sp.rule)
        active = active + [sp]
        c.ev('added_later')
    for d in ds:
        judge(c, d, active, rw)
    c.raises(ValueError, lambda: rw.add_rules('no-such-rule'), 'rule-name')
    c.raises(ValueError, lambda: Rewriter(['determiner', c.choice(
        ['', 'Determiner', 'dets'])]), 'rule-name')
    c.ev('bad_rule_name')
    c.check(set(NAMED) <= set(Rewriter.available_rules()), 'available-rules')


def direct(c):
    """Rules called on boxes: None exactly when they do not match."""
    sp = (c.choice([Named(x) for x in NAMED if x not in TABLE]) if c.p(.2)
          else Named(c.choice(list(TABLE))))
    if sp.name == 'curry':
        rule = CurryRewriteRule()
    elif sp.name == 'coordination':
        ws = None if c.p(.5) else ['or', 'and', 'nor']
        rule = CoordinationRewriteRule(ws) if ws else \
            CoordinationRewriteRule()
    else:
        rule = Rewriter([sp.name]).rules[0]
    w = base(word(c, [sp]))
    if not flat(w.cod):
        c.skip()
    r = rule(w)
    m = sp.matches(w)
    if sp.name == 'coordination' and ws and w.name in ws:
        m = coordination(flat(w.cod))
    c.note(f'{sp.name} on {w!r}')
    c.eq(r is not None, m, 'match', f'{sp.name} {w!r}')
    c.ev('direct_call')
    c.sig(sp.name, box_key(w))
    if m:
        r = r.to_diagram()
        c.eq((flat(r.dom), flat(r.cod)), (flat(w.dom), flat(w.cod)),
             'direct-type')
        I = Interp(1, dims={'n': 2, 's': 3, 'p': 2})
        c.close(I(r), sp.image(I, w)[0], 'direct-wiring', repr(w))


def from_diagrams(c):
    """The vocabulary is what occurs at least min_freq times."""
    words = [G.Word(c.choice(VOCAB[:6]), mk(c.choice([[N], [S], [N, S]])))
             for _ in range(c.int(2, 14))]
    ds, i = [], 0
    while i < len(words):
        k = c.int(1, 4)
        d = G.Id()
        for w in words[i:i + k]:
            d = d @ w
            if c.p(.2):
                d = d @ G.Box(w.name, G.Ty(), w.cod)
        ds.append(d)
        i += k
    f = c.int(1, 4)
    ignore = c.p(.5)
    token = c.choice(['<UNK>', 'U'])
    kw = {'min_freq': f} if f != 1 or c.p(.5) else {}
    if ignore:
        kw['ignore_types'] = True
    if token != '<UNK>':
        kw['unk_token'] = token
    rule = UnknownWordsRewriteRule.from_diagrams(
        iter(ds) if c.p(.5) else ds, **kw)
    c.ev('from_diagrams')
    k = (lambda w: w.name) if ignore else (lambda w: (w.name, flat(w.cod)))
    cnt = {}
    for w in words:
        cnt[k(w)] = cnt.get(k(w), 0) + 1
    vocab = [x for x in cnt if cnt[x] >= f]
    sp = Unk(vocab, token, rule)
    rw = Rewriter([rule])
    for d in ds:
        judge(c, d, [sp], rw, f'min_freq={f} ignore={ignore}')
    new = G.Id()
    for _ in range(4):
        new = new @ G.Word(c.choice(VOCAB), mk(c.choice([[N], [S]])))
    judge(c, new, [sp], rw)


FAMILIES = [
    Family('rewrite', rewrite, 1600),
    Family('add_later', add_later, 200),
    Family('direct', direct, 1500),
    Family('from_diagrams', from_diagrams, 250),
]
