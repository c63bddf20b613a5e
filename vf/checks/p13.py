"""P13 Linear, spider and tree readers keep all words and the shape."""
import copy

from lambeq import AtomicType, TreeReader, TreeReaderMode
from lambeq.backend import grammar as G
from lambeq.text2diagram import (CCGParser, LinearReader, bag_of_words_reader,
                                 cups_reader, spiders_reader, stairs_reader,
                                 word_sequence_reader)
from lambeq.text2diagram.ccg_rule import CCGRule

from vf import ccg
from vf.ccg import collapse, derivation, is_cx
from vf.core import Family
from vf.gen import flat, mk, rand_seq
from vf.sem import typing_error

RULE = 'distinct (reader, mode, token pattern) combinations'
REQUIRED = ['cups', 'stairs', 'spiders', 'custom', 'one_word', 'repeated',
            'tokenised', 'untokenised', 'batch', 'refused', 'odd_token',
            'mode_NO_TYPE', 'mode_RULE_ONLY', 'mode_RULE_TYPE',
            'mode_HEIGHT', 'unary_step', 'named_exactly', 'suppressed',
            'word_type', 'empty_token']
S = (('s', 0),)
TOKENS = ['a', 'the', 'The', 'THE', '.', ',', '...', "don't", 'é', '日本語',
          '\U0001f600', 'START', 'STAIR', 'x' * 60, '-', '42', '[', '"', '\\',
          'UNIBOX', 's', '@', '>>', 'a.r', '\u200b', 'ﬁ']
ODD = ['a b', ' a', 'b ', '\t', '', '\n', ' ', 'x\ty']


def tokens(c, n, odd=False):
    if c.p(.3):
        base = [c.choice(TOKENS) for _ in range(max(1, n // 2))]
        return [c.choice(base) for _ in range(n)]
    return [c.choice(ODD) if odd and c.p(.15) else c.choice(TOKENS)
            for _ in range(n)]


def trace(d):
    """What is applied to what: returns the terms of the output wires, and
    the words in left-to-right order.  A term is ('w', k, wire) for the
    k-th word or (box id, output number)."""
    cur, words, boxes, cups = [], [], [], []
    for lay in d.layers:
        i, b = len(flat(lay.left)), lay.box
        m, n = len(flat(b.dom)), len(flat(b.cod))
        if isinstance(b, G.Word):
            k = len(words)
            words.append(b)
            cur[i:i] = [('w', k, j) for j in range(n)]
        elif isinstance(b, G.Cup):
            cups.append(tuple(cur[i:i + 2]))
            cur[i:i + 2] = []
        else:
            k = len(boxes)
            boxes.append((b, tuple(cur[i:i + m])))
            cur[i:i + m] = [('b', k, j) for j in range(n)]
    return cur, words, boxes, cups


def order(words, d):
    """Names of the words by wire position (words are never moved)."""
    pos, out = [], []
    for lay in d.layers:
        if isinstance(lay.box, G.Word):
            i = len(flat(lay.left))
            out.append((lay, i))
    del pos
    return [w.name for w in words]


def judge(c, d, toks, start=None):
    c.check(isinstance(d, G.Diagram), 'not-a-diagram', repr(d)[:200])
    err = typing_error(d)
    c.check(err is None, 'ill-typed', err)
    c.eq(flat(d.dom), (), 'domain')
    cur, words, boxes, cups = trace(d)
    # left-to-right order: every word layer has all earlier words to its left
    seen = 0
    for lay in d.layers:
        if isinstance(lay.box, G.Word):
            n = len(flat(lay.right))
            c.check(n == 0, 'word-order', repr(d)[:300])
            seen += 1
        else:
            break
    if start is not None:
        c.check(words, 'words', 'no words')
        c.eq((words[0].name, flat(words[0].cod)), start, 'start-word')
        words = words[1:]
    c.eq([w.name for w in words], list(toks), 'words')
    c.check(all(not w.z for w in words) if hasattr(G.Word, 'z') else True,
            'word-rotated')
    return cur, words, boxes, cups


def linear(c):
    n = c.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 12])
    tokenised = c.p(.5)
    toks = tokens(c, n, odd=tokenised)
    if tokenised:
        sent = list(toks)
        c.ev('tokenised')
        if set(toks) & set(ODD):
            c.ev('odd_token')
        if '' in toks:
            c.ev('empty_token')
    else:
        sent = c.choice(['', ' ', '\n ']) + ''.join(
            t + c.choice([' ', ' ', '  ', '\t']) for t in toks)
        if c.p(.5):
            sent = sent.strip(' \t')
        toks = sent.split()
        c.ev('untokenised')
    if len(toks) == 1:
        c.ev('one_word')
    if len(set(toks)) < len(toks):
        c.ev('repeated')
    which = c.choice(['cups', 'stairs', 'spiders', 'custom'])
    before = copy.deepcopy(sent)
    kw = {'tokenised': True} if tokenised else c.choice(
        [{}, {'tokenised': False}])
    c.note(f'{which} {sent!r} {kw}')
    c.sample(f'{which} {sent!r}')
    c.sig(which, n, tokenised, tuple(toks))
    if which == 'cups':
        r = c.choice([cups_reader, word_sequence_reader])
    elif which == 'stairs':
        r = stairs_reader
    elif which == 'spiders':
        r = c.choice([spiders_reader, bag_of_words_reader])
    else:
        return custom(c, sent, toks, kw)
    d = r.sentence2diagram(sent, **kw)
    c.eq(sent, before, 'input-altered')
    c.ev(which)
    c.eq(flat(d.cod), S, 'codomain')
    if which == 'cups':
        cur, words, boxes, cups = judge(c, d, toks, ('START', S))
        k = len(toks)
        c.check(not boxes, 'shape', lambda: repr(boxes))
        for w in words:
            c.eq(flat(w.cod), (('s', 1), ('s', 0)), 'word-type')
        prev = [('w', 0, 0)] + [('w', i, 1) for i in range(1, k + 1)]
        want = {(prev[i], ('w', i + 1, 0)) for i in range(k)}
        c.eq(set(cups), want, 'shape', 'chain of cups')
        c.eq(len(cups), k, 'shape')
        c.eq(cur, [prev[-1]], 'shape', 'output')
    elif which == 'stairs':
        cur, words, boxes, cups = judge(c, d, toks)
        c.check(not cups, 'shape')
        for w in words:
            c.eq(flat(w.cod), S, 'word-type')
        c.eq(len(boxes), len(toks) - 1, 'shape', 'number of merging boxes')
        acc = ('w', 0, 0)
        for k, (b, ins) in enumerate(boxes):
            c.eq((b.name, flat(b.dom), flat(b.cod)), ('STAIR', S + S, S),
                 'merging-box')
            c.eq(ins, (acc, ('w', k + 1, 0)), 'shape', f'box {k}')
            acc = ('b', k, 0)
        c.eq(cur, [acc], 'shape')
    else:
        cur, words, boxes, cups = judge(c, d, toks)
        c.check(not cups, 'shape')
        for w in words:
            c.eq(flat(w.cod), S, 'word-type')
        c.check(len(boxes) == 1 and isinstance(boxes[0][0], G.Spider),
                'shape', lambda: repr(boxes))
        c.eq(boxes[0][1], tuple(('w', i, 0) for i in range(len(toks))),
             'shape', 'spider legs')
        c.eq(cur, [('b', 0, 0)], 'shape')
    if c.p(.4):
        other = tokens(c, c.int(1, 4))
        batch = [sent, other if tokenised else ' '.join(other), sent]
        out = r.sentences2diagrams(batch, **kw)
        c.eq(len(out), 3, 'batch-length')
        c.check(out[0] == d and out[2] == d, 'batch-entry')
        c.check(out[1] == r.sentence2diagram(batch[1], **kw), 'batch-entry')
        c.ev('batch')
    # tokenised and untokenised forms agree
    if all(t.split() == [t] for t in toks):
        c.check(r.sentence2diagram(' '.join(toks)) == d, 'tokenisation')
        c.check(r.sentence2diagram(list(toks), tokenised=True) == d,
                'tokenisation')


def custom(c, sent, toks, kw):
    """A linear reader made by the user."""
    wt = tuple(rand_seq(c, 1, 2))
    arity = c.int(2, 3)
    start = None
    args = {}
    if c.p(.5):
        # the accumulated wire is the first wire of the start box
        start = ('BEGIN', wt)
        args['start_box'] = G.Word('BEGIN', mk(wt)).to_diagram()
    total = len(wt) * (len(toks) + (start is not None))
    if (total - 1) % (arity - 1):
        arity = 2
    first = wt[:1]
    # all wires equal, so that any application is well typed
    wt = first * len(wt)
    if start:
        start = ('BEGIN', wt)
        args['start_box'] = G.Word('BEGIN', mk(wt)).to_diagram()
    comb = G.Box('MERGE', mk(first * arity), mk(first))
    r = LinearReader(comb.to_diagram() if c.p(.5) else comb, mk(wt), **args)
    d = r.sentence2diagram(sent, **kw)
    cur, words, boxes, cups = judge(c, d, toks, start)
    for w in words:
        c.eq(flat(w.cod), wt, 'word-type')
    c.eq(flat(d.cod), first, 'codomain')
    k = (total - 1) // (arity - 1)
    c.eq(len(boxes), k, 'shape')
    wires = [('w', i, j) for i in range(len(toks) + bool(start))
             for j in range(len(wt))]
    for i, (b, ins) in enumerate(boxes):
        c.eq(b.name, 'MERGE', 'merging-box')
        c.eq(ins, tuple(wires[:arity]), 'shape', 'left-most wires first')
        wires[:arity] = [('b', i, 0)]
    c.eq(cur, wires, 'shape')
    c.ev('custom')


def refuse(c):
    """Wrongly typed input is refused."""
    r = c.choice([cups_reader, stairs_reader, spiders_reader,
                  TreeReader(Stub([]))])
    toks = tokens(c, c.int(1, 4))
    bad = c.choice([
        (' '.join(toks), True), (list(toks), False), (tuple(toks), True),
        (toks + [c.choice([1, None, b'a', ['x'], 2.5])], True),
        ([c.choice([1, None, b'a', ['x']])] + toks, True),
        (None, False), (3, False), (b'a b', False), (None, True),
        ({'a': 1}, True), ([list(toks)], True), (iter(toks), True)])
    c.note(f'{bad}')
    c.raises(ValueError, lambda: r.sentence2diagram(bad[0],
                                                    tokenised=bad[1]),
             'wrong-type-accepted', repr(bad))
    c.raises(ValueError, lambda: r.sentences2diagrams(
        [bad[0]], tokenised=bad[1]), 'wrong-type-accepted', repr(bad))
    c.ev('refused')
    c.sig('refuse', type(r).__name__, str(bad))


class Stub(CCGParser):
    """A CCG parser returning prepared trees."""

    def __init__(self, trees):
        self.trees = trees
        self.verbose = 'suppress'
        self.calls = []

    def sentences2trees(self, sentences, tokenised=False,
                        suppress_exceptions=False, verbose=None):
        out = []
        for s in sentences:
            self.calls.append((s, tokenised))
            t = self.trees.pop(0)
            if isinstance(t, Exception):
                if not suppress_exceptions:
                    raise t
                t = None
            out.append(t)
        return out


def boom():
    return RuntimeError('no parse')


class Bad(CCGParser):
    def sentences2trees(self, *a, **k):
        raise boom()


def trees(c):
    mode = c.choice(list(TreeReaderMode))
    unary = c.choice([False, False, True, 'swap'])
    d = derivation(c, unary=unary, leaves=c.int(1, 7),
                   vocab=[t for t in TOKENS if t.split() == [t]])
    toks = [x.word for x in d.leaves()]
    tree = d.tree(rules=c.p(.5))
    wt = S
    args = {}
    if c.p(.4):
        wt = tuple(rand_seq(c, 1, 2))
        args['word_type'] = mk(wt)
        c.ev('word_type')
    if mode != TreeReaderMode.NO_TYPE or c.p(.5):
        args['mode'] = mode
    np = c.p(.5)
    kw = {} if np and c.p(.5) else {'collapse_noun_phrases': np}
    c.note(f'{mode} {d!r} {args} {kw}')
    c.sample(f'{mode.name} {d!r}')
    stub = Stub([tree, tree, tree])
    reader = TreeReader(c.choice([stub, lambda: stub]), **args)
    before = tree.to_json()
    tokenised = c.p(.5)
    sent = list(toks) if tokenised else ' '.join(toks)
    try:
        g = reader.sentence2diagram(sent, tokenised=tokenised, **kw)
    except Exception as e:
        c.check(any(n.rule == 'U' for n in d.nodes()), 'tree-refused',
                repr(e))
        r = reader.sentence2diagram(sent, tokenised=tokenised,
                                    suppress_exceptions=True, **kw)
        c.check(r is None, 'not-suppressed')
        c.ev('tree_refused')
        return
    c.eq(tree.to_json(), before, 'tree-altered')
    c.eq(stub.calls, [(sent, tokenised)], 'parser-call')
    c.ev('mode_' + mode.name)
    if any(n.rule == 'U' for n in d.nodes()):
        c.ev('unary_step')
    judge_tree(c, g, d, mode, wt, np)
    # the static conversion agrees
    t = tree.collapse_noun_phrases() if np else tree
    g2 = TreeReader.tree2diagram(t, mode, mk(wt))
    c.check(g2 == g, 'tree2diagram-differs')
    c.sig(mode.name, repr(d), wt, np)


def judge_tree(c, g, d, mode, wt, np):
    err = typing_error(g)
    c.check(err is None, 'ill-typed', err)
    c.eq(flat(g.dom), (), 'domain')
    c.eq(flat(g.cod), wt, 'codomain')
    cur, ws, boxes = [], [], []
    for lay in g.layers:
        i, b = len(flat(lay.left)), lay.box
        m = len(flat(b.dom))
        if isinstance(b, G.Word):
            c.eq(flat(b.cod), wt, 'word-type')
            term = ('w', b.name)
        else:
            c.eq(flat(b.cod), wt, 'rule-box-type', b)
            ins = cur[i:i + m]
            k = len(wt)
            c.check(m % k == 0, 'rule-box-type', b)
            groups = [ins[j:j + k] for j in range(0, m, k)]
            for grp in groups:
                c.check(all(x[0] is grp[0][0] and x[1] == n
                            for n, x in enumerate(grp)), 'shape',
                        'wires of a constituent are split')
            term = ('b', b.name, [grp[0][0] for grp in groups])
        cur[i:i + m] = [(term, j) for j in range(len(wt))]
    c.check(all(x[0] is cur[0][0] and x[1] == n for n, x in enumerate(cur)),
            'shape')
    term = cur[0][0]
    col = collapse if np else (lambda x: x)
    simple = not any(n.rule == 'U' for n in d.nodes())

    def height(t):
        return 0 if t[0] == 'w' else 1 + max(map(height, t[2]))

    def leaves(t):
        return [t[1]] if t[0] == 'w' else [x for k in t[2]
                                           for x in leaves(k)]
    c.eq(leaves(term), [x.word for x in d.leaves()], 'words')

    def compare(t, n):
        """Unary steps may be removed (absorbed in the types)."""
        while n.rule == 'U' and not (t[0] == 'b' and len(t[2]) == 1
                                     and unary_box(t, n)):
            n = n.children[0]
        if not n.children:
            c.eq(t[0], 'w', 'shape', 'a box instead of a word')
            c.eq(t[1], n.word, 'words')
            return
        c.check(t[0] == 'b', 'shape', 'a word instead of a box')
        c.eq(len(t[2]), len(n.children), 'shape', 'number of constituents')
        name(t, n)
        for x, y in zip(t[2], n.children):
            compare(x, y)

    def unary_box(t, n):
        """Whether the one-input box `t` is the unary step `n` itself and
        not a type raising step below it."""
        k = n
        while k.rule == 'U':
            k = k.children[0]
        depth_t, x = 0, t
        while x[0] == 'b' and len(x[2]) == 1:
            depth_t, x = depth_t + 1, x[2][0]
        depth_n, y, tr = 0, n, 0
        while len(y.children) == 1:
            tr += y.rule != 'U'
            depth_n, y = depth_n + 1, y.children[0]
        if depth_t == depth_n:
            return True
        if mode == TreeReaderMode.RULE_ONLY:
            return t[1] == 'U'
        if mode == TreeReaderMode.RULE_TYPE:
            return t[1].startswith('U(')
        return depth_t > tr and swapping(n)

    def swapping(n):
        return is_cx(n.cat) and is_cx(n.children[0].cat) \
            and n.cat[0] != n.children[0].cat[0]

    def name(t, n):
        rule = CCGRule(n.rule)
        rules = {rule.value}
        if rule == CCGRule.CONJUNCTION:
            rules |= {'FA', 'BA'}
        if mode == TreeReaderMode.NO_TYPE:
            c.eq(t[1], 'UNIBOX', 'box-name')
        elif mode == TreeReaderMode.HEIGHT:
            c.eq(t[1], f'layer_{height(t)}', 'box-name')
        elif mode == TreeReaderMode.RULE_ONLY:
            c.check(t[1] in rules, 'box-name', f'{t[1]} for {n.rule}')
        else:
            c.check(any(t[1].startswith(r + '(') for r in rules),
                    'box-name', f'{t[1]} for {n.rule}')
            if simple and rule != CCGRule.CONJUNCTION and not any(
                    k.rule == 'CONJ' for k in n.children) and exact:
                want = ', '.join(shown(col(k.cat)) for k in n.children)
                c.eq(t[1], f'{rule.value}({want})', 'box-name')
                c.ev('named_exactly')
    exact = all(n.rule != 'CONJ' for n in d.nodes())
    compare(term, d)


def shown(cat):
    return ccg.text(cat)


def settings(c):
    c.raises(ValueError, lambda: TreeReader(Stub([]), mode=c.choice(
        ['NO_TYPE', 0, None, 'party'])), 'bad-mode')
    c.raises(ValueError, lambda: TreeReader(c.choice(['x', None, 3])),
             'bad-parser')
    c.raises(ValueError, lambda: TreeReader(lambda: c.choice(['x', None])),
             'bad-parser')
    d = derivation(c, leaves=4)
    sent = ' '.join(['w'] * len(d.leaves()))
    r = TreeReader(Stub([boom(), boom()]))
    c.raises(RuntimeError, lambda: r.sentence2diagram(sent), 'error-lost')
    c.check(r.sentence2diagram(sent, suppress_exceptions=True) is None,
            'not-suppressed')
    c.ev('suppressed')
    c.sig('settings', repr(d))


FAMILIES = [Family('linear', linear, 900, 12000),
            Family('trees', trees, 900, 12000),
            Family('refuse', refuse, 300, 3000),
            Family('settings', settings, 100, 1000)]
