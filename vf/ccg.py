"""Random CCG derivations with our own notion of what they wire together.

Categories are tuples: ('n',) atomic, ('/', res, arg), ('\\', res, arg) and
('raw', seq) for a pseudo-category with a given flat pregroup type."""
from __future__ import annotations

from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType

from vf.gen import VOCAB
from vf.sem import rotate_seq

ATOMS = ['n', 'np', 's', 'p']


def A(n):
    return (n,)


def cx(d, r, a):
    return (d, r, a)


def is_cx(c):
    return c[0] in '/\\'


def to_ccg(c):
    if is_cx(c):
        return CCGType(result=to_ccg(c[1]), direction=c[0],
                       argument=to_ccg(c[2]))
    return CCGType(c[0])


def from_ccg(t):
    """Structure of a CCGType through its public attributes."""
    if t.is_complex:
        return (t.direction, from_ccg(t.result), from_ccg(t.argument))
    if t.is_atomic:
        return (t.name,)
    return ()


def text(c, brackets=None, top=True):
    """Our printer; `brackets()` tells whether to add redundant ones."""
    if not is_cx(c):
        s = c[0]
        while brackets and brackets():
            s = f'({s})'
        return s
    s = text(c[1], brackets, False) + c[0] + text(c[2], brackets, False)
    if not top:
        s = f'({s})'
    while brackets and brackets():
        s = f'({s})'
    return s


def flat_cat(c):
    """Pregroup type of a category."""
    if c[0] == 'raw':
        return tuple(c[1])
    if c[0] == '/':
        return flat_cat(c[1]) + rotate_seq(flat_cat(c[2]), -1)
    if c[0] == '\\':
        return rotate_seq(flat_cat(c[2]), 1) + flat_cat(c[1])
    return ((c[0], 0),)


def collapse(c):
    if c[0] == 'raw':
        return c
    if is_cx(c):
        return (c[0], collapse(c[1]), collapse(c[2]))
    return ('n',) if c[0] == 'np' else c


class Node:
    def __init__(self, rule, cat, children=(), word=None):
        self.rule, self.cat = rule, cat
        self.children, self.word = list(children), word

    def leaves(self):
        if not self.children:
            return [self]
        return [x for ch in self.children for x in ch.leaves()]

    def nodes(self):
        yield self
        for ch in self.children:
            yield from ch.nodes()

    def tree(self, rules=True):
        kids = [k.tree(rules) for k in self.children]
        t = to_ccg(self.cat)
        if not kids:
            return CCGTree(self.word, rule='L', biclosed_type=t)
        rule = self.rule
        if not rules:
            from lambeq.text2diagram.ccg_rule import CCGRule
            rule = CCGRule.infer_rule([k.biclosed_type for k in kids], t)
        return CCGTree(rule=rule, biclosed_type=t, children=kids)

    def shape(self):
        if not self.children:
            return (self.rule, self.cat, self.word)
        return (self.rule, self.cat, tuple(k.shape() for k in self.children))

    def __repr__(self):
        if not self.children:
            return f'{self.word}:{text(self.cat)}'
        return (f'[{self.rule} {text(self.cat)} '
                + ' '.join(map(repr, self.children)) + ']')


def rand_cat(c, depth=2, atoms=ATOMS):
    if depth == 0 or c.p(.45):
        return A(c.choice(atoms))
    return cx(c.choice('/\\'), rand_cat(c, depth - 1, atoms),
              rand_cat(c, depth - 1, atoms))


def size(cat):
    return len(flat_cat(cat))


UNARY = 'U'


def derivation(c, cat=None, leaves=5, unary=False, conj=True, tr=True,
               punct=True, general=True, max_size=7, vocab=None,
               unique=False):
    """A random valid derivation of `cat` with at most `leaves` leaves."""
    state = {'k': 0}
    vocab = vocab or VOCAB

    def leaf(cat):
        if cat == ('punc',):
            w = c.choice([',', ';', '.', ':'])
        elif cat == ('conj',):
            w = c.choice(['and', 'or', 'but'])
        else:
            w = c.choice(vocab)
        state['k'] += 1
        if unique:
            w = f'{w}{state["k"]}'
        return Node('L', cat, word=w)

    def split(n):
        a = c.int(1, n - 1)
        return a, n - a

    def gen(cat, n, allow_unary=True, tr=tr):
        # (parsers never attach punctuation to a type-raised constituent)
        if n == 1 and not (tr and is_cx(cat) and is_cx(cat[2])) \
                and not (unary and c.p(.2)):
            return leaf(cat)
        opts = []
        d = cat[0] if is_cx(cat) else None
        if n >= 2 and size(cat) < max_size:
            opts += ['FA', 'BA', 'FA', 'BA']
            if d == '/':
                opts += ['FC', 'FC', 'BX']
            if d == '\\':
                opts += ['BC', 'BC', 'FX']
            if general and d and is_cx(cat[1]):
                opts += ['G', 'G']
            if punct and cat not in (('punc',), ('conj',)):
                opts += ['LP', 'RP']
            if conj and d and cat[1] == cat[2]:
                opts += ['CONJ'] * 3
        if tr and d and is_cx(cat[2]) and cat[2][0] != d \
                and cat[2][1] == cat[1]:
            opts += ['TR'] * 3
        if unary and allow_unary and cat not in (('punc',), ('conj',)) \
                and c.p(.3):
            opts += ['U']
        if not opts:
            return leaf(cat)
        r = c.choice(opts)
        Y = rand_cat(c, c.choice([0, 0, 1, 1, 2]))
        if size(Y) > 3:
            Y = A(c.choice(ATOMS))
        if r in ('FA', 'BA'):
            a, b = split(n)
            if r == 'FA':
                # sometimes an argument with an NP so that type raising fits
                return Node('FA', cat, [gen(cx('/', cat, Y), a), gen(Y, b)])
            return Node('BA', cat, [gen(Y, a), gen(cx('\\', cat, Y), b)])
        if r == 'FC':
            a, b = split(n)
            X, Z = cat[1], cat[2]
            if tr and c.p(.5):
                W = A(c.choice(['n', 'np']))
                Y = cx('\\', X, W)
                return Node('FC', cat, [
                    Node('FTR', cx('/', X, Y), [gen(W, a)]),
                    gen(cx('/', Y, Z), b)])
            return Node('FC', cat, [gen(cx('/', X, Y), a),
                                    gen(cx('/', Y, Z), b)])
        if r == 'BC':
            a, b = split(n)
            X, Z = cat[1], cat[2]
            if tr and c.p(.4):
                W = A(c.choice(['n', 'np']))
                Y = cx('/', X, W)
                return Node('BC', cat, [
                    gen(cx('\\', Y, Z), a),
                    Node('BTR', cx('\\', X, Y), [gen(W, b)])])
            return Node('BC', cat, [gen(cx('\\', Y, Z), a),
                                    gen(cx('\\', X, Y), b)])
        if r == 'FX':
            a, b = split(n)
            return Node('FX', cat, [gen(cx('/', cat[1], Y), a),
                                    gen(cx('\\', Y, cat[2]), b)])
        if r == 'BX':
            a, b = split(n)
            return Node('BX', cat, [gen(cx('/', Y, cat[2]), a),
                                    gen(cx('\\', cat[1], Y), b)])
        if r == 'G':
            a, b = split(n)
            # peel outer arguments down to the innermost X|Z
            spine, x = [], cat
            while is_cx(x) and (len(spine) < 2 or (is_cx(x[1])
                                                   and c.p(.4))):
                spine.append((x[0], x[2]))
                x = x[1]
            if len(spine) < 2:
                return leaf(cat)
            inner = spine[-1][0]
            sub = Y
            for dd, arg in reversed(spine):
                sub = cx(dd, sub, arg)
            allsame = len({s[0] for s in spine}) == 1
            if c.p(.5):
                # X/Y + (Y|Z)|.. -> (X|Z)|..
                if inner == '/' and not allsame:
                    return leaf(cat)
                rule = 'GFC' if inner == '/' else 'GFX'
                return Node(rule, cat, [gen(cx('/', x, Y), a),
                                        gen(sub, b)])
            if inner == '\\' and not allsame:
                return leaf(cat)
            rule = 'GBC' if inner == '\\' else 'GBX'
            return Node(rule, cat, [gen(sub, a), gen(cx('\\', x, Y), b)])
        if r == 'LP':
            return Node('LP', cat, [leaf(('punc',)),
                                    gen(cat, n - 1, tr=False)])
        if r == 'RP':
            return Node('RP', cat, [gen(cat, n - 1, tr=False),
                                    leaf(('punc',))])
        if r == 'CONJ':
            which = ('conj',) if c.p(.7) else ('punc',)
            if d == '\\':
                return Node('CONJ', cat, [leaf(which), gen(cat[1], n - 1)])
            return Node('CONJ', cat, [gen(cat[1], n - 1), leaf(which)])
        if r == 'TR':
            X = cat[2][2]
            return Node('FTR' if d == '/' else 'BTR', cat, [gen(X, n)])
        if r == 'U':
            if is_cx(cat):
                nd = d
                if unary == 'swap' and c.p(.5):
                    nd = '/' if d == '\\' else '\\'
                sub = cx(nd, rand_cat(c, 0), rand_cat(c, 0))
            else:
                sub = A(c.choice(ATOMS))
            if sub == cat:
                return leaf(cat)
            return Node('U', cat, [gen(sub, n, False)])
        raise AssertionError(r)

    if cat is None:
        cat = c.choice([A('s'), A('s'), A('s'), A('n'), A('np'),
                        cx('\\', A('s'), A('np')), rand_cat(c, 2)])
    return gen(cat, c.int(1, leaves))


class Unresolvable(Exception):
    """Type changes cannot be pushed through this step."""


def wiring(root, collapse_np=True):
    """What the derivation connects: (leaf types by leaf index, output type,
    set of joined endpoint pairs).  Endpoints are ('w', leaf, wire) and
    ('out', position)."""
    col = collapse if collapse_np else (lambda x: x)
    leaf_types, links = {}, {}
    counter = {'leaf': 0, 'cap': 0}

    def link(a, b):
        links.setdefault(a, []).append(b)
        links.setdefault(b, []).append(a)

    def cups(l, r):
        for a, b in zip(reversed(l), r):
            link(a, b)

    def n(cat):
        return len(flat_cat(cat))

    def go(node, want):
        """Wires of the node when its category is changed to `want`."""
        rule = node.rule
        if not node.children:
            k = counter['leaf']
            counter['leaf'] += 1
            if want == ('punc',):
                leaf_types[k] = None
                return []
            leaf_types[k] = flat_cat(want)
            return [('w', k, i) for i in range(n(want))]
        kids = node.children
        cats = [col(k.cat) for k in kids]
        if rule == 'U':
            sub = cats[0]
            if is_cx(want) and is_cx(sub) and want[0] != sub[0]:
                res, arg = want[1], want[2]
                nd = '\\' if want[0] == '/' else '/'
                z = -1 if want[0] == '/' else 1
                # child X|Y written the other way round, with the argument
                # wires keeping their (adjoint) types, then swapped
                argw = rotate_seq(flat_cat(arg), z)
                raw = ('raw', rotate_seq(argw, z))
                w = go(kids[0], (nd, res, raw))
                if want[0] == '/':   # child: arg.l @ res -> res @ arg.l
                    m = len(argw)
                    return w[m:] + w[:m]
                m = n(res)
                return w[m:] + w[:m]
            return go(kids[0], want)
        if rule in ('FTR', 'BTR'):
            if not (is_cx(want) and is_cx(want[2])):
                raise Unresolvable
            T, X = want[1], want[2][2]
            m = n(T)
            k = counter['cap']
            counter['cap'] += 1
            p = [('c', k, 0, i) for i in range(m)]
            q = [('c', k, 1, i) for i in range(m)]
            cups(p, q)
            w = go(kids[0], X)
            if rule == 'FTR':
                return p + q + w
            return w + p + q
        left, right = kids
        lc, rc = cats
        if rule == 'CONJ':
            if lc in (('conj',), ('punc',)):
                rule, lc = 'FA', None
            else:
                rule, rc = 'BA', None
        if rule == 'LP':
            counter['leaf'] += len(left.leaves())
            leaf_types[counter['leaf'] - 1] = None
            return go(right, want)
        if rule == 'RP':
            w = go(left, want)
            counter['leaf'] += len(right.leaves())
            leaf_types[counter['leaf'] - 1] = None
            return w
        if rule == 'FA':
            if left.rule == 'FTR':
                rc = cx(rc[0], want, rc[2])
            m = n(rc)
            a = go(left, cx('/', want, rc))
            b = go(right, rc)
            cups(a[len(a) - m:], b)
            return a[:len(a) - m]
        if rule == 'BA':
            if right.rule == 'BTR':
                lc = cx(lc[0], want, lc[2])
            m = n(lc)
            a = go(left, lc)
            b = go(right, cx('\\', want, lc))
            cups(a, b[:m])
            return b[m:]
        if not is_cx(want):
            raise Unresolvable
        if rule in ('FC', 'GFC', 'FX', 'GFX'):
            if not is_cx(lc):
                raise Unresolvable
            Y = lc[2]
        else:
            if not is_cx(rc):
                raise Unresolvable
            Y = rc[2]
        main = left if rule in ('FC', 'GFC', 'FX', 'GFX') else right
        sub_cat = rc if main is left else lc
        # arguments above Y in the secondary category
        spine, x = [], sub_cat
        while x != Y:
            if not is_cx(x):
                raise Unresolvable
            spine.append(x)
            x = x[1]
        wspine, X = [], want
        for _ in spine:
            if not is_cx(X):
                raise Unresolvable
            wspine.append((X[0], X[2]))
            X = X[1]
        if [s[0] for s in spine] != [s[0] for s in wspine]:
            raise Unresolvable
        if rule[0] == 'G' and want != col(node.cat):
            # the documented "lenient" replacement: which argument counts
            # as innermost after a type change is left open
            raise Unresolvable
        if main.rule in ('FTR', 'BTR'):
            # the type-raised constituent keeps its argument
            Y = cx(Y[0], X, Y[2])
        sub = Y
        for dd, arg in reversed(wspine):
            sub = cx(dd, sub, arg)
        m = n(Y)
        before = 0
        # wires of Y inside `sub`
        for dd, arg in wspine:
            if dd == '\\':
                before += n(arg)
        if main is left:
            a = go(left, cx('/', X, Y))
            b = go(right, sub)
            cups(a[n(X):], b[before:before + m])
            return b[:before] + a[:n(X)] + b[before + m:]
        a = go(left, sub)
        b = go(right, cx('\\', X, Y))
        cups(a[before:before + m], b[:m])
        return a[:before] + b[m:] + a[before + m:]

    out = go(root, col(root.cat))
    for i, w in enumerate(out):
        link(('out', i), w)
    pairs = set()
    for a in links:
        if a[0] == 'c':
            continue
        if len(links[a]) != 1:
            raise AssertionError('endpoint used twice')
        prev, cur = a, links[a][0]
        while cur[0] == 'c':
            nxt = [x for x in links[cur]]
            if len(nxt) != 2:
                raise AssertionError('open cap')
            nxt.remove(prev)
            prev, cur = cur, nxt[0]
        pairs.add(frozenset((a, cur)))
    return leaf_types, flat_cat(col(root.cat)), pairs


def diagram_wiring(d, word_index):
    """Endpoint pairs of a diagram of words, cups, caps and swaps.
    `word_index` maps the n-th word layer to a leaf index."""
    from lambeq.backend import grammar as G
    from vf.gen import flat
    cur, links, k, caps = [], {}, 0, 0

    def link(a, b):
        links.setdefault(a, []).append(b)
        links.setdefault(b, []).append(a)
    for lay in d.layers:
        i, b = len(flat(lay.left)), lay.box
        m = len(flat(b.dom))
        if isinstance(b, G.Word):
            cur[i:i] = [('w', word_index[k], j)
                        for j in range(len(flat(b.cod)))]
            k += 1
        elif isinstance(b, G.Cup):
            link(cur[i], cur[i + 1])
            cur[i:i + 2] = []
        elif isinstance(b, G.Cap):
            x, y = ('c', caps, 0), ('c', caps, 1)
            caps += 1
            link(x, y)
            cur[i:i] = [x, y]
        elif isinstance(b, G.Swap):
            cur[i], cur[i + 1] = cur[i + 1], cur[i]
        else:
            return None
    for i, w in enumerate(cur):
        link(('out', i), w)
    pairs = set()
    for a in links:
        if a[0] == 'c':
            continue
        prev, x = a, links[a][0]
        while x[0] == 'c':
            nxt = list(links[x])
            nxt.remove(prev)
            prev, x = x, nxt[0]
        pairs.add(frozenset((a, x)))
    return pairs
