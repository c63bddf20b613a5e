"""P16 Oncilla's scores are decoded into one rooted tree over the words."""
import os
import shutil
import tempfile

import torch

from lambeq import OncillaParser
from lambeq.backend.grammar import Ty
from lambeq.text2diagram.model_based_reader.oncilla_parser import (
    OncillaParseError)
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode

from vf import tiny
from vf.core import Family
from vf.gen import flat
from vf.sem import typing_error

RULE = 'distinct (length, subtoken counts, head assignment, types) tuples'
REQUIRED = ['one_root', 'no_root', 'many_roots', 'cyclic', 'tree', 'special',
            'subtokens', 'beyond', 'self_best', 'extreme', 'tied', 'stop',
            'only_stop', 'diagram', 'suppressed', 'text', 'deep', 'batch',
            'single', 'long', 'marker']
ASSUMPTIONS = ['the network is a tiny random one whose last layers return '
               'the scores chosen by the workload']
SUB = ['unking', 'dogss', '42', '$1,000', 'ab', 'runsing', 'Johns']
W = 64
PARSER = None
TYPE_OF = {'unk': Ty('unk'), 's': Ty('s'), 'n': Ty('n'),
           'n.r @ s': Ty('n').r @ Ty('s'), 'n @ n': Ty('n') @ Ty('n'),
           's.r @ n.r.r @ n': Ty('s').r @ Ty('n').r.r @ Ty('n'),
           'p': Ty('p'), 'n.l': Ty('n').l}


class Fixed(torch.nn.Module):
    """Stands in for an output layer: returns the chosen scores."""
    def __init__(self):
        super().__init__()
        self.queue = []

    def forward(self, x):
        return self.queue.pop(0)[None, :x.shape[1]]


def setup():
    global PARSER
    tiny.shim()
    path = tempfile.mkdtemp(prefix='vf_p16_')
    try:
        tiny.oncilla(path)
        PARSER = OncillaParser(path, verbose='suppress')
    finally:
        shutil.rmtree(path)
    m = PARSER.model
    m.position_ids = torch.arange(W)[None]
    m.double()
    m.parent_outputs = Fixed()
    m.type_classifier = Fixed()


def rows(words):
    """First subtoken's row of every word, and the number of rows."""
    ids = PARSER.tokenizer(['[ROOT]'] + words, is_split_into_words=True,
                           truncation=True).word_ids()
    first = {}
    for i, w in enumerate(ids):
        if w is not None:
            first.setdefault(w, i)
    return [first.get(k + 1) for k in range(len(words))], len(ids)


def make_words(c):
    n = c.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    if c.p(.04):
        n = c.int(15, 30)
        c.ev('long')
    out = [c.choice(tiny.WORDS + (SUB if n < 12 else [])) for _ in range(n)]
    if out[-1] == '.':
        out[-1] = 'cat'
    if c.p(.05):        # what the model prepends is a word like any other
        out[c.int(0, n - 1)] = '[ROOT]'
        c.ev('marker')
    return out


def make_scores(c, words):
    """Parent scores (row per subtoken, column per position), type scores."""
    n = len(words)
    first, m = rows(words)
    r = c.np
    mode = c.choice(['real', 'real', 'extreme', 'tied', 'tree', 'tree',
                     'rootless', 'rooty'])
    if mode == 'tied':
        s = r.integers(-2, 3, size=(m, W)).astype(float)
        c.ev('tied')
    elif mode == 'extreme':
        s = r.choice([-1., 1.], size=(m, W)) * 10 ** r.uniform(-3, 30, (m, W))
        c.ev('extreme')
    else:
        s = r.normal(size=(m, W)) * 3
    if mode == 'tree':
        # a plausible tree is favoured
        order = list(range(n))
        c.rng.shuffle(order)
        for k, i in enumerate(order):
            h = 0 if k == 0 else 1 + c.choice(order[:k][-2:])
            s[first[i], h] += 30
        drop = c.choice(['none', 'root', 'extra'])
        if drop == 'root':
            s[first[order[0]], 0] -= 60
        if drop == 'extra' and n > 1:
            for i in order[1:1 + c.int(1, 2)]:
                s[first[i], 0] += 50
    if mode == 'rootless':
        s[:, 0] -= 40
    if mode == 'rooty':
        s[:, 0] += 8
    if c.p(.4):         # the special tokens' rows mean nothing
        for i in (0, 1, m - 1):
            s[i] += 1000 if c.p(.5) else 0
            s[i, 0] += 2000
        c.ev('special')
    if c.p(.4):         # nor do the later pieces of a word
        for i in range(2, m - 1):
            if i not in first:
                s[i] += c.choice([0, 500, -500])
                s[i, 0] += 2000
    if m > n + 3:
        c.ev('subtokens')
    if c.p(.5):         # positions beyond the sentence are no words
        s[:, n + 1:] += 3000
        c.ev('beyond')
    if c.p(.5):         # no word may govern itself
        for i in range(n):
            s[first[i], i + 1] += 3000
        c.ev('self_best')
    t = r.normal(size=(m, len(tiny.TYPES)))
    return torch.tensor(s), torch.tensor(t), first, mode == 'tied'


def decode(s, first):
    """The documented decoding.  -> heads (-1 for the root)."""
    n = len(first)
    opts = [[0] + [j for j in range(1, n + 1) if j != i + 1]
            for i in range(n)]
    best = [max(o, key=lambda j: s[first[i], j].item())
            for i, o in enumerate(opts)]
    if best.count(0) != 1:
        root = max(range(n), key=lambda i: s[first[i], 0].item())
        best = [0 if i == root else
                max(opts[i][1:], key=lambda j: s[first[i], j].item())
                for i in range(n)]
        return [b - 1 for b in best], True
    return [b - 1 for b in best], False


def top(row, cols, j):
    return row[j].item() >= max(row[k].item() for k in cols)


def admissible(c, s, first, heads, what):
    """Valid under ties: any maximal choice is right."""
    n = len(first)
    c.check(len(heads) == n and all(
        isinstance(h, int) and -1 <= h < n and h != i
        for i, h in enumerate(heads)), 'head-out-of-range', f'{what} {heads}')
    c.eq(heads.count(-1), 1, 'root-count', f'{what} {heads}')
    opts = [[0] + [j for j in range(1, n + 1) if j != i + 1]
            for i in range(n)]
    plain = all(top(s[first[i]], opts[i], heads[i] + 1) for i in range(n))
    root = heads.index(-1)
    forced = (all(s[first[root], 0] >= s[first[i], 0] for i in range(n))
              and all(top(s[first[i]], opts[i][1:], heads[i] + 1)
                      for i in range(n) if i != root))
    c.check(plain or forced, 'not-the-best-heads', f'{what} {heads}')


def tree_of(words, types, heads):
    """The tree those heads describe, None if they do not form one."""
    n = len(words)
    for i in range(n):
        k, steps = i, 0
        while k >= 0:
            k = heads[k]
            steps += 1
            if steps > n:
                return None
    nodes = [PregroupTreeNode(word=w, typ=TYPE_OF[t], ind=i)
             for i, (w, t) in enumerate(zip(words, types))]

    def build(i):
        kids = [build(j) for j in range(n) if heads[j] == i]
        return PregroupTreeNode(word=words[i], typ=TYPE_OF[types[i]], ind=i,
                                children=kids)
    del nodes
    return build(heads.index(-1))


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:      # judged below
        return 'exc', e


def load(s, t, times=1):
    PARSER.model.parent_outputs.queue = [s] * times
    PARSER.model.type_classifier.queue = [t] * times


def expectation(c, words, s, t, first, tied):
    """(heads or None when ties leave them open, types, tree, diagram)"""
    types = [tiny.TYPES[int(t[f].argmax())] for f in first]
    heads, forced = decode(s, first)
    if tied:
        return None, types, None, None
    tree = tree_of(words, types, heads)
    n = len(words)
    roots = sum(1 for i in range(n)
                if all(s[first[i], 0] >= s[first[i], j]
                       for j in range(1, n + 1) if j != i + 1))
    c.ev('one_root' if roots == 1 else 'no_root' if not roots
         else 'many_roots')
    c.ev('tree' if tree else 'cyclic')
    c.sig((n, tuple(first), tuple(heads), tuple(types)))
    if tree is None:
        return heads, types, None, None
    if n == 1:
        c.ev('single')
    if max((depth(heads, i) for i in range(n)), default=0) > 3:
        c.ev('deep')
    st, d = outcome(lambda: tree.to_diagram(tokens=list(words)))
    return heads, types, tree, d if st == 'ok' else None


def depth(heads, i):
    k = 0
    while heads[i] >= 0:
        i, k = heads[i], k + 1
    return k


def fam_decode(c):
    words = make_words(c)
    s, t, first, tied = make_scores(c, words)
    c.note(words=words,
           first=first)
    heads, types, tree, diagram = expectation(c, words, s, t, first, tied)

    # the assignment itself, where the model exposes it
    direct = getattr(PARSER.model, '_sentence2pred', None)
    if direct is not None:
        load(s, t)
        out = direct(list(words), PARSER.tokenizer)
        got = [p[0] if isinstance(p, (list, tuple)) else p
               for p in out.parents]
        c.eq(list(out.words), words, 'words')
        c.eq([list(x) for x in out.types], [[x] for x in types], 'types')
        admissible(c, s, first, got, f'{words}')
        if heads is not None:
            c.eq(got, heads, 'heads')
        else:
            heads = got
            tree = tree_of(words, types, heads)
            if tree is not None:
                st, d = outcome(lambda: tree.to_diagram(tokens=list(words)))
                diagram = d if st == 'ok' else None
            c.ev('tree' if tree else 'cyclic')

    # through the parser
    stop = c.p(.25) and len(words) < 20
    if stop:
        c.ev('stop')
    sent = words + ['.'] if stop else list(words)
    tok = c.p(.7)
    if not tok:
        c.ev('text')
        sent = ' '.join(sent)
    load(s, t)
    given = list(sent) if tok else sent
    st, d = outcome(lambda: PARSER.sentence2diagram(given, tokenised=tok))
    c.eq(given, sent, 'input-altered')
    if heads is None:
        return
    if diagram is None:
        c.check(st == 'exc' and isinstance(d, OncillaParseError),
                'failure-hidden', f'{st} {d!r} for {words} {heads} {types}')
    else:
        c.check(st == 'ok', 'refused', f'{d!r} for {words} {heads} {types}')
        judge_diagram(c, d, words, diagram)
    load(s, t)
    d2 = PARSER.sentence2diagram(given, tokenised=tok,
                                 suppress_exceptions=True)
    c.ev('suppressed')
    if diagram is None:
        c.check(d2 is None, 'suppressed-not-none')
    else:
        c.eq(d2, diagram, 'suppressed-diagram')


def judge_diagram(c, d, words, expected):
    c.ev('diagram')
    c.check(typing_error(d) is None, 'ill-typed', lambda: typing_error(d))
    boxes = [b for b in d.boxes if type(b).__name__ == 'Word']
    c.eq([b.name for b in boxes], words, 'words-in-order')
    c.eq(len(d.dom), 0, 'domain')
    c.eq(d, expected, 'diagram')


def fam_batch(c):
    """Several sentences: each decoded from its own scores."""
    k = c.int(1, 5)
    jobs = []
    for _ in range(k):
        words = make_words(c)
        while True:
            s, t, first, tied = make_scores(c, words)
            if not tied:
                break
        jobs.append((words, s, t) + expectation(c, words, s, t, first, False))
    c.note(batch=[j[0] for j in jobs])
    PARSER.model.parent_outputs.queue = [j[1] for j in jobs]
    PARSER.model.type_classifier.queue = [j[2] for j in jobs]
    out = PARSER.sentences2diagrams([list(j[0]) for j in jobs],
                                    tokenised=True, suppress_exceptions=True)
    c.eq(len(out), k, 'batch-length')
    for d, j in zip(out, jobs):
        want = j[-1]
        if want is None:
            c.check(d is None, 'failure-hidden', f'{j[0]}')
        else:
            c.check(d is not None, 'refused', f'{j[0]} {j[3]}')
            judge_diagram(c, d, j[0], want)
    c.ev('batch')


def fam_stop(c):
    """A sentence that is only a full stop has nothing to parse."""
    load(torch.tensor(c.np.normal(size=(W, W))),
         torch.tensor(c.np.normal(size=(W, len(tiny.TYPES)))))
    sent = ['.'] if c.p(.5) else '.'
    c.note(sent=sent)
    c.ev('only_stop')
    c.raises(OncillaParseError, lambda: PARSER.sentence2diagram(
        sent, tokenised=isinstance(sent, list)), 'only-stop')
    c.eq(PARSER.sentence2diagram(sent, tokenised=isinstance(sent, list),
                                 suppress_exceptions=True), None, 'only-stop')


FAMILIES = [
    Family('decode', fam_decode, 1600),
    Family('batch', fam_batch, 160),
    Family('stop', fam_stop, 8),
]
