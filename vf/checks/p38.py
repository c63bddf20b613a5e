"""P38 Discourse circuits keep all nouns and sentences in order."""
import contextlib
import copy
import itertools
import sys
import types
import warnings
from unittest.mock import patch

import spacy
from spacy.tokens import Doc

from lambeq import AtomicType, BobcatParser, OncillaParser
from lambeq.backend import grammar as G
from lambeq.backend.grammar import Ty
from lambeq.experimental.discocirc import (CoreferenceResolver,
                                           DisCoCircReader,
                                           MaverickCoreferenceResolver,
                                           SpacyCoreferenceResolver,
                                           TreeRewriter, TreeRewriteRule)
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from vf.ccg import A, derivation
from vf.core import Family
from vf.gen import flat
from vf.sem import any_key

RULE = 'distinct texts (trees, coreference clusters) and options'
REQUIRED = ['sandwich', 'frames', 'pruned', 'no_nouns', 'imperative',
            'pruned_nouns', 'min_noun_freq2', 'coreference',
            'twice_in_sentence', 'sentences', 'parsed', 'rewritten',
            'rewritten_twice', 'custom_rule', 'join_merge', 'join_first',
            'join_last', 'default_rules', 'maverick', 'spacy', 'resolved',
            'refused', 'unknown_rule']

N, S = AtomicType.NOUN, AtomicType.SENTENCE
VP = N.r @ S


def worker_setup():
    warnings.simplefilter('ignore')


# -- texts -------------------------------------------------------------------
NOUNS = ['Alice', 'Bob', 'dog', 'she', 'Paris', 'it', 'car']
ADJ = ['red', 'big', 'The', 'a', 'the', 'An']
VERBS = ['runs', 'likes', 'gives', 'sees']
ADV = ['quickly', 'does', 'Has', 'often', 'do']
SADV = ['yesterday', 'maybe', 'that']


class T:
    """A node of a sentence's tree."""

    def __init__(self, word, typ, kids=()):
        self.word, self.typ, self.kids = word, typ, list(kids)
        self.ind = None

    def nodes(self):
        return [self] + [x for k in self.kids for x in k.nodes()]

    def copy(self):
        t = T(self.word, self.typ, [k.copy() for k in self.kids])
        t.ind = self.ind
        return t

    def key(self):
        return (self.word, self.ind, flat(self.typ),
                tuple(k.key() for k in self.kids))

    def make(self):
        return PregroupTreeNode(self.word, self.ind, self.typ,
                                children=[k.make() for k in self.kids])


def of_node(node):
    t = T(node.word, node.typ, [of_node(k) for k in node.children])
    t.ind = node.ind
    return t


def noun(c, depth):
    r = c.int(0, 9) if depth > 0 else 9
    if r <= 2:
        return T(c.choice(ADJ), N, [noun(c, depth - 1)])
    if r == 3:
        return T(c.choice(['who', 'which']), N,
                 [noun(c, depth - 1), vp(c, depth - 1)])
    if r == 4:
        return T(c.choice(['of', 'and']), N,
                 [noun(c, depth - 1), noun(c, depth - 1)])
    return T(c.choice(NOUNS), N)


def vp(c, depth):
    if depth > 0 and c.p(.35):
        return T(c.choice(ADV), VP, [vp(c, depth - 1)])
    return T(c.choice(VERBS), VP,
             [noun(c, depth - 1) for _ in range(c.choice([0, 1, 1, 2]))])


def sent(c, depth):
    r = c.int(0, 9) if depth > 0 else 9
    if r <= 2:
        return T(c.choice(ADV), S, [noun(c, depth - 1), vp(c, depth - 1)])
    if r == 3:
        return T(c.choice(SADV), S, [sent(c, depth - 1)])
    if r == 4:
        return T(c.choice(['and', 'because']), S,
                 [sent(c, depth - 1), sent(c, depth - 1)])
    return T(c.choice(VERBS), S, [noun(c, depth - 1)
                                  for _ in range(c.choice([1, 1, 2, 2, 3]))])


def lay_out(c, root, straight):
    """Put the words of a tree in a sentence; returns the tokens and the
    position of each node."""
    order = []

    def visit(t):
        k = c.int(0, len(t.kids))
        if not straight and c.p(.2):
            c.rng.shuffle(t.kids)
        for kid in t.kids[:k]:
            visit(kid)
        order.append(t)
        for kid in t.kids[k:]:
            visit(kid)
    visit(root)
    return order


class Text:
    """Sentences with their trees and who is who."""

    def __init__(self, c, many=None, singles=None):
        self.tokens, self.trees, self.pos = [], [], []
        mentions = []
        for i in range(many or c.int(1, 4)):
            r = c.int(0, 11)
            root = (vp(c, c.int(0, 2)) if r == 0 else noun(c, 2) if r == 1
                    else sent(c, c.int(0, 3)))
            order = lay_out(c, root, c.p(.7))
            exact = c.p(.5)
            toks = []
            for k, t in enumerate(order):
                while c.p(.08):
                    toks.append(c.choice([',', '"']))
                t.where = len(toks)
                t.ind = len(toks) if exact else k
                toks.append(t.word)
            if c.p(.6):
                toks.append('.')
            self.tokens.append(toks)
            self.trees.append(root)
            for t in order:
                if t.typ == N and not t.kids:
                    mentions.append((i, t.where))
        # clusters of mentions
        clusters = []
        free = list(mentions)
        for _ in range(c.int(0, 3)):
            if len(free) >= 2:
                got = c.rng.sample(free, min(len(free), c.int(2, 4)))
                free = [m for m in free if m not in got]
                clusters.append(sorted(got))
        self.clusters = clusters
        c.rng.shuffle(clusters)
        listed = list(clusters)
        if singles is None:
            singles = c.p(.7)
        if singles:
            listed += [[m] for m in mentions]
        self.corefs = [[[j for i, j in cl if i == k]
                        for k in range(len(self.tokens))] for cl in listed]
        self.entity = {m: m for m in mentions}
        for cl in clusters:
            for m in cl:
                self.entity[m] = cl[0]
        self.mentions = mentions


# -- what the circuit should be ------------------------------------------------
class Open(Exception):
    """What happens is left open."""


def frames(t, pruned):
    """(box or frame, mentions) of a subtree."""
    if t.typ == N and not t.kids:
        if t.where in pruned:
            return None, []
        return 'wire', [t]
    kids = [frames(k, pruned) for k in t.kids]
    ms = [m for _, part in kids for m in part]
    holes = [(a, z) for a, z in flat(t.typ) if z]
    holes = [(a, z - 1) for a, z in reversed(holes)]
    if not ms and not holes:
        return None, []
    dom = (('n', 0), ) * len(ms) + tuple(holes)
    inner = tuple(k for k, _ in kids if k not in (None, 'wire'))
    return (t.word, dom, inner), ms


def sandwiches(t, prev, pruned, labels):
    """(boxes with the mentions they act on, mentions, last noun)."""
    if t.typ == N and not t.kids:
        return ([], [], prev) if t.where in pruned else ([], [t], t)
    wires = []
    if any(abs(z) == 1 and a == 'n' for a, z in flat(t.typ)):
        if prev is None:
            raise Open
        wires.append(prev)
    parts = []
    for k in t.kids:
        evs, ws, last = sandwiches(k, prev, pruned, labels)
        if k.typ == N:
            prev = last
        wires += [w for w in ws if w not in wires]
        if evs:
            parts.append(evs)
    if not wires:
        return [], [], prev

    def box(suffix):
        return t.word + (f'$_{{{suffix}}}$' if labels and parts else ''), wires
    out = [box('top')]
    for i, evs in enumerate(parts, 1):
        out += evs + [box('bottom' if i == len(parts) else i)]
    return out, wires, prev


def expected(trees, entity, pruned, sandwich, labels):
    """The nouns and the boxes, each with the entities it acts on."""
    who, boxes = [], []
    for i, root in enumerate(trees):
        cut = {j for k, j in pruned if k == i}
        if sandwich:
            evs, ms, _ = sandwiches(root, None, cut, labels)
        else:
            st, ms = frames(root, cut)
            evs = [] if st in (None, 'wire') else [(st, ms)]

        def ent(m):
            return entity.get((i, m.where), (i, m.where))
        for m in ms:
            if all(ent(m) != e for e, _ in who):
                who.append((ent(m), m.word))
        boxes += [(b, tuple(ent(m) for m in ms)) for b, ms in evs]
    return who, boxes


# -- what it is ------------------------------------------------------------------
def structure(b):
    if isinstance(b, G.Frame):
        inner = []
        for x in b.components:
            inner += [structure(y.box) for y in x.to_diagram().layers]
        inner = tuple(inner)
    else:
        inner = ()
    if flat(b.dom) != flat(b.cod) or b.z:
        raise ValueError(f'{b!r} changes its wires')
    return b.name, flat(b.dom), inner


def actual(d, who, sandwich):
    """Follow the wires of the circuit."""
    if flat(d.dom):
        raise ValueError(f'domain {d.dom}')
    scan, boxes, names, k = [], [], [], 0
    at = ()
    for l in d.layers:
        b, off = l.box, len(l.left)
        if flat(l.left) + flat(b.dom) + flat(l.right) != at:
            raise ValueError('ill-typed')
        at = flat(l.left) + flat(b.cod) + flat(l.right)
        n = len(b.dom)
        if isinstance(b, G.Swap):
            scan[off:off + 2] = scan[off:off + 2][::-1]
        elif isinstance(b, G.Spider):
            if n == 0 or len(set(scan[off:off + n])) != 1:
                raise ValueError(f'wires of {scan[off:off + n]} joined')
            scan[off:off + n] = [scan[off]] * len(b.cod)
        elif n == 0:
            if flat(b.cod) != (('n', 0), ) or isinstance(b, G.Frame):
                raise ValueError(f'unexpected {b!r}')
            if k == len(who):
                raise ValueError(f'a noun too many: {b!r}')
            # (nouns are told apart by their places)
            if off != len(scan) or len(l.right):
                raise ValueError('nouns are not put in order')
            scan.insert(off, who[k][0])
            names.append(b.name)
            k += 1
        else:
            boxes.append((structure(b) if not sandwich else b.name,
                          tuple(scan[off:off + n])))
            if sandwich and (structure(b)[2] or isinstance(b, G.Frame)):
                raise ValueError(f'frame {b!r}')
    if at != flat(d.cod):
        raise ValueError('ill-typed')
    return names, boxes, scan


# -- simplifying trees -------------------------------------------------------------
AVAILABLE = {
    'determiner': (N, {'a', 'an', 'the'}, 1, 'last'),
    'auxiliary': (VP, {'has', 'had', 'have', 'did', 'does', 'do'}, 1, 'last'),
    'noun_modification': (N, None, None, 'merge'),
    'verb_modification': (VP, None, None, 'merge'),
    'sentence_modification': (S, None, None, 'merge')}


def simplify(t, rule):
    """Rewrite the chains of modifiers in a tree."""
    typ, words, depth, join = rule
    chain = []
    while (len(t.kids) == 1 and t.kids[0].typ == t.typ
           and (not typ or t.typ == typ)
           and (not words or t.word.lower() in words)):
        chain.append(t)
        t = t.kids[0]
    new = T(t.word, t.typ, [simplify(k, rule) for k in t.kids])
    new.ind, new.where = t.ind, getattr(t, 'where', None)
    k = 0
    while chain and (depth is None or k < depth):
        w = chain.pop().word
        new.word = {'merge': f'{w} {new.word}', 'first': w,
                    'last': new.word}[join]
        k += 1
    while chain:
        old = chain.pop()
        up = T(old.word, old.typ, [new])
        up.ind, up.where = old.ind, getattr(old, 'where', None)
        new = up
    return new


def rand_rules(c):
    return c.choice([None, None, (), ['determiner'],
                     c.rng.sample(sorted(AVAILABLE), c.int(1, 5))])


# -- parsers and resolvers of our own -----------------------------------------------
class Resolver(CoreferenceResolver):
    def __init__(self, text):
        self.text = text

    def tokenise_and_coref(self, text):
        return ([list(s) for s in self.text.tokens],
                copy.deepcopy(self.text.corefs))


class Parsed:
    def __init__(self, tree):
        self.tree = tree

    def to_pregroup_tree(self, *a, **k):
        return self.tree.make()


class Bobcat(BobcatParser):
    def __init__(self, text):
        self.todo = list(zip(text.tokens, text.trees))

    def sentence2diagram(self, sentence, tokenised=False, **kw):
        toks, tree = self.todo.pop(0)
        assert list(sentence) == toks and tokenised, (sentence, toks)
        return Parsed(tree)


class Oncilla(OncillaParser):
    def __init__(self, text):
        self.todo = list(zip(text.tokens, text.trees))

    def _sentence2pregrouptree(self, sentence, break_cycles=False,
                               tokenised=False, **kw):
        toks, tree = self.todo.pop(0)
        assert list(sentence) == toks and tokenised, (sentence, toks)
        return tree.make()


def judge(c, d, trees, entity, pruned, sandwich, labels):
    try:
        who, boxes = expected(trees, entity, pruned, sandwich, labels)
    except Open:
        c.ev('open')
        return
    try:
        names, got, out = actual(d, who, sandwich)
    except ValueError as e:
        c.fail('malformed', f'{e}\n{d!r}'[:1500])
    c.eq(names, [w for _, w in who], 'nouns')
    c.eq(out, [e for e, _ in who], 'wires-out')
    c.eq(got, boxes, 'boxes')
    c.ev('sandwich' if sandwich else 'frames')
    if pruned:
        c.ev('pruned')
    if not who:
        c.ev('no_nouns')


def dummies(text):
    """A noun for sentences without a subject."""
    out = []
    for toks, t in zip(text.tokens, text.trees):
        if t.typ not in (N, S):
            new = T(t.word, S, t.kids + [T('', N)])
            new.ind, new.where = t.ind, t.where
            new.kids[-1].where = len(toks)
            new.kids[-1].ind = None
            t = new
        out.append(t)
    return out


def fam_text(c):
    text = Text(c)
    trees = dummies(text)
    if any(a is not b for a, b in zip(trees, text.trees)):
        c.ev('imperative')
    sandwich, labels = c.p(.5), c.p(.7)
    kw = {'sandwich': sandwich}
    if not labels or c.p(.5):
        kw['foliated_frame_labels'] = labels
    if c.p(.3):
        kw['break_cycles'] = c.p(.5)
    pruned = set()
    if c.p(.35):
        words = c.rng.sample(NOUNS + ['nobody'], c.int(1, 3))
        kw['pruned_nouns'] = c.choice([list, tuple, set])(words)
        gone = {text.entity[m] for m in text.mentions
                if text.tokens[m[0]][m[1]] in words}
        pruned |= {m for m in text.mentions if text.entity[m] in gone}
        c.ev('pruned_nouns')
    if c.p(.2):
        k = c.int(1, 3)
        counts = list(text.entity.values())
        # (frequencies are those of the resolver's mentions)
        single = sum(len(x) for cl in text.corefs for x in cl)
        if k == 1 or single >= len(text.mentions) + sum(
                map(len, text.clusters)):
            kw['min_noun_freq'] = k
            pruned |= {m for m in text.mentions
                       if counts.count(text.entity[m]) < k}
            c.ev(f'min_noun_freq{k}')
    rules = ['determiner', 'auxiliary']
    if c.p(.5):
        rules = kw['rewrite_rules'] = rand_rules(c)
        if rules is None:
            rules = ['determiner', 'auxiliary']
        c.ev(f'rules{len(rules)}')
    c.note(tokens=text.tokens, trees=[t.key() for t in text.trees],
           corefs=text.corefs, options=kw)
    c.sig([t.key() for t in trees], text.corefs, sorted(kw))
    for r in rules:
        trees = [simplify(t, AVAILABLE[r]) for t in trees]
    parser = c.choice([Bobcat, Oncilla])(text)
    res = Resolver(text)
    reader = DisCoCircReader(
        parser if c.p(.5) else lambda: parser,
        res if c.p(.5) else lambda: res)
    d = reader.text2circuit(' '.join(sum(text.tokens, [])), **kw)
    judge(c, d, trees, text.entity, pruned, sandwich, labels)
    c.sample(f'{text.tokens} {text.clusters} {kw}')
    if text.clusters:
        c.ev('coreference')
    if any(x[0] == y[0] for cl in text.clusters
           for x, y in itertools.combinations(cl, 2)):
        c.ev('twice_in_sentence')
    if len(text.trees) > 1:
        c.ev('sentences')


def fam_parsed(c):
    """The same with sentences taken through real diagrams."""
    text = Text.__new__(Text)
    text.tokens, text.trees, diags = [], [], []
    for _ in range(c.int(1, 3)):
        d = derivation(c, A('s') if c.p(.8) else A('n'), leaves=c.int(2, 5),
                       punct=c.p(.3), conj=c.p(.3))
        diag = d.tree().to_diagram()
        try:
            node = diag.to_pregroup_tree(break_cycles=True)
        except Exception:
            c.skip()
        toks = [x.word for x in d.leaves()]
        t = of_node(node)
        # where the words that are left are in the sentence
        words = node.get_words()
        inds = node.get_word_indices()
        j, where = 0, {}
        for i, w in zip(inds, words):
            while j < len(toks) and toks[j] != w:
                j += 1
            if j == len(toks):
                c.skip()
            where[i] = j
            j += 1
        ids = [x.ind for x in t.nodes()]
        if len(set(ids)) < len(ids):
            c.skip()
        if any(set(flat(x.typ)) - {('n', 0), ('s', 0), ('n', 1), ('n', -1)}
               for x in t.nodes()):
            c.skip()
        for x in t.nodes():
            x.where = where[x.ind]
        text.tokens.append(toks)
        text.trees.append(t)
        diags.append(diag)
    mentions = [(i, x.where) for i, t in enumerate(text.trees)
                for x in t.nodes() if x.typ == N and not x.kids]
    got = c.rng.sample(mentions, min(len(mentions), c.int(0, 3)))
    text.corefs = [[sorted(j for i, j in got if i == k)
                    for k in range(len(diags))]] if got else []
    first = min(got) if got else None
    entity = {m: first if m in got else m for m in mentions}
    sandwich, labels = c.p(.5), c.p(.5)
    c.note(tokens=text.tokens, trees=[t.key() for t in text.trees],
           corefs=text.corefs)
    c.sig([t.key() for t in text.trees], text.corefs)

    class P(Bobcat):
        def sentence2diagram(self, sentence, tokenised=False, **kw):
            assert list(sentence) == text.tokens[self.k]
            self.k += 1
            return diags[self.k - 1]
    p = P.__new__(P)
    p.k = 0
    d = DisCoCircReader(p, Resolver(text)).text2circuit(
        'x', sandwich=sandwich, foliated_frame_labels=labels)
    trees = dummies(text)
    for r in ('determiner', 'auxiliary'):
        trees = [simplify(t, AVAILABLE[r]) for t in trees]
    judge(c, d, trees, entity, set(), sandwich, labels)
    c.ev('parsed')


def fam_rewrite(c):
    t = c.choice([sent, noun, vp])(c, c.int(0, 5))
    for k, x in enumerate(lay_out(c, t, False)):
        x.ind = k
    node = t.make()
    before = of_node(node).key()
    rules, models = [], []
    for _ in range(c.int(1, 3)):
        if c.p(.6):
            r = c.choice(sorted(AVAILABLE))
            rules.append(r)
            models.append(AVAILABLE[r])
        else:
            typ = c.choice([False, N, S, VP])
            words = c.choice([None, {'red', 'quickly'}, {'big', 'the', 'do'},
                              set(x.lower() for x in ADJ + ADV)])
            depth = c.choice([None, 1, 2, 3])
            join = c.choice(['merge', 'first', 'last'])
            models.append((typ, words, depth, join))
            rules.append(TreeRewriteRule(typ, words, depth, join)
                         if c.p(.5) else TreeRewriteRule(
                             match_type=typ, match_words=words,
                             max_depth=depth, word_join=join))
            c.ev('custom_rule')
            c.ev(f'join_{join}')
    if c.p(.1):
        rw = TreeRewriter()
        models = [AVAILABLE['determiner'], AVAILABLE['auxiliary']]
        c.ev('default_rules')
    else:
        rw = TreeRewriter(rules)
        if c.p(.3):
            rw = TreeRewriter(rules[:1])
            rw.add_rules(*rules[1:])
    c.note(tree=before, rules=models)
    c.sig(before, str(models))
    want = t
    for m in models:
        want = simplify(want, m)
    got = rw(node)
    c.eq(of_node(got).key(), want.key(), 'rewritten-tree')
    c.eq(of_node(node).key(), before, 'tree-altered')
    todo = [(got, None)]
    while todo:
        x, up = todo.pop()
        c.check(x.parent is up or (up is not None and x.parent is not None
                                   and x.parent.is_same_word(up)),
                'parents-wrong', lambda: f'{x!r}: {x.parent!r}, not {up!r}')
        todo += [(k, x) for k in x.children]
    if want.key() != t.key():
        c.ev('rewritten')
        if len(want.nodes()) <= len(t.nodes()) - 2:
            c.ev('rewritten_twice')
    else:
        c.ev('unchanged')
    if c.p(.05):
        c.raises(ValueError, lambda: TreeRewriter(['nonsense']),
                 'unknown-rule-accepted')
        c.ev('unknown_rule')


# -- coreference models ------------------------------------------------------------
POS = ['NOUN', 'PROPN', 'PRON', 'VERB', 'ADP', 'DET', 'PUNCT', 'ADJ']


class Piece:
    """A spaCy component doing something to a document."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, doc):
        return self.fn(doc) or doc


def fam_resolver(c):
    words = [[c.choice(['Alice', 'dog', 'the', 'runs', 'she', 'of', 'é'])
              for _ in range(c.int(1, 6))] for _ in range(c.int(1, 4))]
    text = '. '.join(' '.join(w) for w in words) + '.'
    if c.p(.3):
        text = text.replace(' ', c.choice(['  ', '\n', ' \n ']), c.int(1, 3))
    sents = [w + ['.'] for w in words]
    pos = [[c.choice(POS[:-2]) for _ in w] + ['PUNCT'] for w in words]
    flatpos = sum(pos, [])
    starts = [0]
    for s in sents:
        starts.append(starts[-1] + len(s))
    # clusters of spans that do not share tokens
    taken, clusters = set(), []
    for _ in range(c.int(0, 3)):
        cl = []
        for _ in range(c.int(1, 3)):
            i = c.int(0, len(sents) - 1)
            a = c.int(0, len(sents[i]) - 1)
            b = min(len(sents[i]) - 1, a + c.int(0, 2))
            span = range(starts[i] + a, starts[i] + b + 1)
            if not taken & set(span):
                taken |= set(span)
                cl.append((span[0], span[-1]))
        if cl:
            clusters.append(cl)
    c.note(text=text, pos=pos, clusters=clusters)

    def tag(doc):
        assert [str(t) for t in doc] == sum(sents, []), list(doc)
        for t, p in zip(doc, flatpos):
            t.pos_ = p

    def sentences(doc):
        for t in doc:
            t.is_sent_start = t.i in starts

    def coref(doc):
        for k, cl in enumerate(clusters):
            doc.spans[f'coref_clusters_{k + 1}'] = [doc[a:b + 1]
                                                    for a, b in cl]

    def load(name, *args, **kw):
        nlp = spacy.blank('en')
        for part, fn in ([('parser', sentences), ('tagger', tag)]
                         if 'coref' not in name else
                         [('transformer', lambda d: None),
                          ('coref', coref)]):
            spacy.Language.factory(f'vf_{part}', func=(
                lambda f: lambda nlp, name: Piece(f))(fn))
            nlp.add_pipe(f'vf_{part}', name=part)
        return nlp

    class Maverick:
        def __init__(self, *a, **k):
            pass

        def predict(self, data):
            assert data == sents, data
            return {'clusters_token_offsets': [tuple(cl) for cl in clusters]}
    kind = c.choice(['maverick', 'spacy'])
    with contextlib.ExitStack() as st:
        st.enter_context(patch.object(spacy, 'load', load))
        mod = types.ModuleType('maverick')
        mod.Maverick = Maverick
        st.enter_context(patch.dict(sys.modules, {'maverick': mod}))
        r = (MaverickCoreferenceResolver() if kind == 'maverick'
             else SpacyCoreferenceResolver())
        toks, corefs = r.tokenise_and_coref(text)
    c.eq(toks, sents, 'tokens')

    def place(i):
        k = max(n for n, s in enumerate(starts) if s <= i)
        return k, i - starts[k]

    def head(a, b):
        if kind == 'spacy':
            return a
        ids = [i for i in range(a, b + 1) if flatpos[i] == 'PROPN'] or [
            i for i in range(a, b + 1) if flatpos[i] in ('NOUN', 'PRON')]
        return ids[-1] if ids else a
    want = [sorted(place(head(a, b)) for a, b in cl) for cl in clusters]
    got = [sorted((i, j) for i, s in enumerate(cl) for j in s)
           for cl in corefs]
    c.check(all(len(cl) == len(sents) for cl in corefs), 'cluster-shape')
    singles = [[(i, j)] for i, s in enumerate(pos) for j, p in enumerate(s)
               if p in ('NOUN', 'PROPN', 'PRON')]
    c.eq(sorted(got), sorted(want + singles), 'clusters')
    d = r.dict_from_corefs(corefs)
    # the same for the mentions of one cluster, and for no others
    for cl in want:
        reps = {d.get(m) for m in cl}
        c.check(len(reps) == 1 and reps <= set(cl), 'representative',
                lambda: f'{cl}: {reps}')
    for (m,) in singles:
        if not any(m in cl for cl in want):
            c.eq(d.get(m), m, 'representative')
    c.eq(set(d), {m for cl in want + singles for m in cl}, 'mentions')
    c.ev(kind)
    if clusters:
        c.ev('resolved')
    c.sig(kind, text, pos, clusters)


def fam_refuse(c):
    text = Text(c, 1)
    c.sig(c.index)
    bad = [None, 3, 'bobcat', object(), G.Id()]
    b = c.choice(bad)
    c.raises((ValueError, ), lambda: DisCoCircReader(b, Resolver(text)),
             'bad-parser-accepted')
    c.raises((ValueError, ), lambda: DisCoCircReader(Bobcat(text), b),
             'bad-resolver-accepted')
    r = DisCoCircReader(Bobcat(text), Resolver(text))
    c.raises(ValueError, lambda: r.text2circuit('x', rewrite_rules=['huh']),
             'unknown-rule-accepted')
    c.raises(NotImplementedError, lambda: r.sentence2diagram('a b'),
             'sentence-read')
    c.raises(NotImplementedError, lambda: r.sentences2diagrams(['a b']),
             'sentence-read')
    c.ev('refused')


FAMILIES = [
    Family('text', fam_text, 1500),
    Family('parsed', fam_parsed, 600),
    Family('rewrite', fam_rewrite, 1000),
    Family('resolver', fam_resolver, 150),
    Family('refuse', fam_refuse, 10, 20),
]
