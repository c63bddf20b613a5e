"""P41 what passes between lambeq and the depccg parser.

depccg is not installed: a package of stand-ins with its interface, which
"parses" sentences into derivations of our own, takes its place."""
import contextlib
import functools
import io
import math
import re
import sys
import types

from lambeq import DepCCGParseError, DepCCGParser
from lambeq.text2diagram.ccg_type import CCGType

from vf import ccg
from vf.core import Family

RULE = 'distinct derivations by categories, rules and words'
REQUIRED = ['parsed', 'FA', 'BA', 'FC', 'BX', 'general', 'CONJ', 'LP', 'RP',
            'FTR', 'BTR', 'U', 'feature', 'complex_leaf', 'bracket', 'failed',
            'suppressed', 'several', 'diagram', 'single', 'tokenised',
            'untokenised', 'bad_category', 'english', 'japanese',
            'bad_language', 'bad_verbosity', 'root_cats', 'own_unary',
            'model_unary', 'kwargs', 'annotator', 'unknown_annotator',
            'single_failed', 'nbest', 'one_word', 'second_call', 'empty']
WORKERS = 8
LIMIT = 60

NAMES = {'n': 'N', 'np': 'NP', 's': 'S', 'p': 'PP', 'conj': 'conj'}
FEATURES = ['', '', '[dcl]', '[X]', '[adj]', '[nb]', '[conj]']
PUNCS = [',', '.', ':', ';', 'LRB', 'RRB']
OPS = {'GFC': 'gfc', 'GFX': 'gfc', 'GBC': 'gbx', 'GBX': 'gbx'}


class Cat:
    """A category as depccg has it."""
    def __init__(self, base=None, left=None, slash=None, right=None, feat=''):
        self.base, self.feat = base, feat
        self.left, self.slash, self.right = left, slash, right

    @property
    def is_functor(self):
        return self.slash is not None

    @classmethod
    def parse(cls, text):
        text = text.strip()
        depth = 0
        for i in range(len(text) - 1, -1, -1):
            ch = text[i]
            depth += (ch in ')]') - (ch in '([')
            if depth == 0 and ch in '/\\' and len(text) > 1:
                return cls(left=cls.parse(text[:i]), slash=ch,
                           right=cls.parse(text[i + 1:]))
        if text.startswith('(') and text.endswith(')'):
            return cls.parse(text[1:-1])
        m = re.fullmatch(r'([^\[]+)(\[.*\])?', text)
        return cls(base=m[1], feat=m[2] or '')

    def __str__(self):
        if self.is_functor:
            return '(' + str(self.left) + self.slash + str(self.right) + ')'
        return self.base + self.feat

    def __eq__(self, other):
        return str(self) == str(other)

    def __hash__(self):
        return hash(str(self))


class Tree:
    def __init__(self, cat, op_string, op_symbol, children=(), word=None):
        self.cat, self.children, self._word = cat, list(children), word
        self.op_string, self.op_symbol = op_string, op_symbol

    @property
    def is_leaf(self):
        return not self.children

    @property
    def is_unary(self):
        return len(self.children) == 1

    @property
    def leaves(self):
        if self.is_leaf:
            return [self]
        return [x for y in self.children for x in y.leaves]

    @property
    def word(self):
        if self.is_leaf:
            return self._word
        return ' '.join(x.word for x in self.leaves)


def cat_of(c, cat):
    if cat == ('punc',):
        b = c.choice(PUNCS)
        if b.endswith('RB'):
            c.ev('bracket')
        return Cat(b)
    if ccg.is_cx(cat):
        return Cat(left=cat_of(c, cat[1]), slash=cat[0],
                   right=cat_of(c, cat[2]))
    f = c.choice(FEATURES) if cat[0] in ('s', 'np', 'n') else ''
    if f:
        c.ev('feature')
    return Cat(NAMES[cat[0]], feat=f)


def tree_of(c, node):
    cat = cat_of(c, node.cat)
    if node.rule == 'L':
        if cat.is_functor:
            c.ev('complex_leaf')
        return Tree(cat, 'lex', '<lex>', word=node.word)
    kids = [tree_of(c, x) for x in node.children]
    if node.rule in ('FTR', 'BTR'):
        op = 'tr', c.choice(['<un>', '>T', '<T'])
    elif node.rule == 'U':
        op = c.choice(['lex', 'un', 'unary']), '<un>'
    else:
        op = OPS.get(node.rule, node.rule.lower()), '<?>'
    c.ev('general' if node.rule in OPS else node.rule)
    return Tree(cat, *op, kids)


# -- the stand-ins -----------------------------------------------------------
class World:
    """What the stand-ins are to answer, and what they were asked."""
    def __init__(self, answers=()):
        self.answers = dict(answers)
        self.asked, self.log = [], []
        self.unary = []


def fake_modules(w):
    def mod(name, **kw):
        m = types.ModuleType(name)
        vars(m).update(kw)
        return m

    def annotator(name):
        def annotate(sentences, tokenize=None):
            w.log.append(('annotate', name, tokenize))
            if tokenize:
                sentences = [' '.join(s).split() for s in sentences]
            return [[types.SimpleNamespace(word=x) for x in s]
                    for s in sentences]
        return annotate

    class Supertagger:
        def predict_doc(self, doc):
            w.log.append(('predict', [list(s) for s in doc]))
            return ('scores', len(doc)), ['N', r'S[dcl]\NP', '(NP/N)', ',']

    def load_model(model, device):
        w.log.append(('load', model, device))
        return Supertagger(), types.SimpleNamespace(config='config')

    def read_params(config):
        assert config == 'config'
        return 'binary', 'unary of the model', 'dictionary', None

    def filters(doc, score, categories, dictionary):
        assert dictionary == 'dictionary'
        w.log.append(('filter', [str(x) for x in categories]))
        return doc, score

    def run(doc, score, categories, roots, binary, unary, **kw):
        assert score == ('scores', len(doc))
        w.log.append(('run', [str(x) for x in categories],
                      [str(x) for x in roots], binary, kw))
        w.unary.append(unary)
        out = []
        for s in doc:
            words = [t.word for t in s]
            w.asked.append(words)
            out.append(w.answers[tuple(words)])
        return out

    def own_unary(x, *, unary_rules):
        return unary_rules.get(x, [])
    grammar = types.SimpleNamespace(apply_unary_rules=own_unary)
    pkg = mod('depccg')
    pkg.__path__ = []
    sub = {
        'lang': mod('depccg.lang', set_global_language_to=lambda x:
                    w.log.append(('language', x))),
        'parsing': mod('depccg.parsing', run=run,
                       apply_category_filters=filters),
        'cat': mod('depccg.cat', Category=Cat),
        'annotator': mod('depccg.annotator', annotate_XX=annotator('XX'),
                         english_annotator={'spacy': annotator('spacy')},
                         japanese_annotator={'janome': annotator('janome'),
                                             'jigg': annotator('jigg')}),
        'instance_models': mod('depccg.instance_models',
                               load_model=load_model,
                               GRAMMARS={'en': grammar, 'ja': grammar}),
        'allennlp': mod('depccg.allennlp'),
        'allennlp.utils': mod('depccg.allennlp.utils',
                              read_params=read_params),
    }
    sub['allennlp'].__path__ = []
    sub['allennlp'].utils = sub['allennlp.utils']
    mods = {'depccg': pkg}
    for k, v in sub.items():
        mods['depccg.' + k] = v
        if '.' not in k:
            setattr(pkg, k, v)
    return mods


@contextlib.contextmanager
def world(w):
    """A world of stand-ins (no state of other worlds is left)."""
    mods = fake_modules(w)
    assert 'depccg' not in sys.modules
    sys.modules.update(mods)
    state = {k: v for k, v in vars(DepCCGParser).items()
             if not callable(v) and not k.startswith('__')}
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            yield w
    finally:
        for k in [k for k, v in vars(DepCCGParser).items()
                  if not callable(v) and not k.startswith('__')]:
            if k not in state:
                delattr(DepCCGParser, k)
            elif vars(DepCCGParser)[k] is not state[k]:
                setattr(DepCCGParser, k, state[k])
        for k in mods:
            sys.modules.pop(k, None)


# -- the judge ---------------------------------------------------------------
def plain(cat):
    """The category's structure, as the types of lambeq name it."""
    if cat.is_functor:
        return (cat.slash, plain(cat.left), plain(cat.right))
    return ({'N': 'n', 'NP': 'np', 'S': 's', 'PP': 'p',
             'conj': 'conj'}.get(cat.base, 'punc'),)


def judge(c, theirs, node, got):
    c.eq(ccg.from_ccg(got.biclosed_type), plain(theirs.cat), 'category',
         str(theirs.cat))
    c.eq(got.text, theirs.word, 'text')
    c.check(got.metadata.get('original') is theirs, 'original')
    c.eq(len(got.children), len(theirs.children), 'children', theirs.word)
    want = {node.rule}
    if node.rule in OPS:            # (the same step may have two names)
        want |= {'GFC': {'FC'}, 'GFX': {'FX'}, 'GBC': {'BC'},
                 'GBX': {'BX'}}[node.rule]
    c.check(got.rule.value in want, 'rule',
            lambda: f'{node.rule} {got.rule} at {theirs.word}')
    for a, b, d in zip(theirs.children, node.children, got.children):
        judge(c, a, b, d)


def rand_node(c, **kw):
    return ccg.derivation(c, leaves=c.choice([1, 2, 3, 4, 6]),
                          unary=c.p(.4), **kw)


def key(t):
    return (str(t.cat), t.op_string, t._word, tuple(map(key, t.children)))


def fam_trees(c):
    """Every derivation is read as it is."""
    pairs, answers, sents = [], {}, []
    for _ in range(c.choice([1, 1, 2, 3, 4])):
        node = rand_node(c)
        t = tree_of(c, node)
        words = tuple(t.word.split(' '))
        if words in answers:
            continue
        bad = c.p(.15)
        best = types.SimpleNamespace(tree=t, score=-math.inf if bad else -1.5)
        rest = []
        if c.p(.2):
            c.ev('nbest')
            rest = [types.SimpleNamespace(tree=tree_of(c, rand_node(c)),
                                          score=-9.)]
        answers[words] = [best] + rest
        pairs.append((t, node, bad))
        sents.append(list(words))
        if len(words) == 1:
            c.ev('one_word')
    if len(sents) > 1:
        c.ev('several')
    tokenised = c.p(.5)
    given = sents if tokenised else [' '.join(s) for s in sents]
    given = [list(s) if tokenised else s for s in given]
    c.ev('tokenised' if tokenised else 'untokenised')
    c.note(given=given, trees=[key(t) for t, _, _ in pairs])
    quiet = c.p(.6)
    if quiet and c.p(.2):
        c.ev('empty')
        at = c.int(0, len(given))
        given.insert(at, [] if tokenised else ' ')
        pairs.insert(at, (None, None, True))
    with world(World(answers)) as w:
        p = DepCCGParser()
        for again in range(1 + c.p(.2)):
            if again:
                c.ev('second_call')
            w.asked.clear()

            def call():
                return p.sentences2trees(given, tokenised=tokenised,
                                         suppress_exceptions=quiet)
            if not quiet and any(b for _, _, b in pairs):
                c.ev('failed')
                c.raises(DepCCGParseError, call, 'failure-not-reported')
                continue
            out = call()
            c.eq(w.asked, sents, 'sentences-handed-over')
            c.eq(len(out), len(pairs), 'number')
            for (t, node, bad), got in zip(pairs, out):
                if bad:
                    c.ev('suppressed')
                    c.check(got is None, 'failure-hidden', repr(got))
                    continue
                c.check(got is not None, 'parse-lost', lambda: str(key(t)))
                judge(c, t, node, got)
                c.ev('parsed')
                c.sig(key(t))
        # one sentence at a time
        for s, (t, node, bad) in list(zip(given, pairs))[:3]:
            kw = dict(tokenised=tokenised)
            if quiet:
                kw['suppress_exceptions'] = True
            if bad:
                if quiet:
                    c.ev('single_failed')
                    c.check(p.sentence2tree(s, **kw) is None
                            and p.sentence2diagram(s, **kw) is None,
                            'failure-hidden', repr(s))
                else:
                    c.raises(DepCCGParseError,
                             lambda: p.sentence2tree(s, **kw),
                             'failure-not-reported')
                continue
            c.ev('single')
            tree = p.sentence2tree(s, **kw)
            judge(c, t, node, tree)
            how = dict(planar=c.p(.3), collapse_noun_phrases=c.p(.6))
            try:
                e = tree.to_diagram(**how)
            except Exception as err:    # (not every tree has a diagram)
                if quiet:
                    c.check(p.sentence2diagram(s, **kw, **how) is None,
                            'undrawn')
                else:
                    c.raises(type(err), lambda: p.sentence2diagram(
                        s, **kw, **how), 'undrawn')
                continue
            c.ev('diagram')
            c.eq(p.sentence2diagram(s, **kw, **how), e, 'diagram')


def fam_refused(c):
    """A category lambeq has no type for is never taken for another."""
    node = rand_node(c)
    t = tree_of(c, node)
    victim = c.choice(t.leaves)
    odd = Cat(c.choice(['UNK', 'X', 'NN', 'VP', 'Sx', 'prep', 'conjx', 'n',
                        's', 'LRBB', '$']))
    if c.p(.4):
        odd = Cat(left=Cat('S'), slash=c.choice('/\\'), right=odd)
    elif c.p(.3):
        odd = Cat(left=odd, slash=c.choice('/\\'), right=Cat('NP'))
    victim.cat = odd
    c.note(repr(key(t)))
    words = t.word.split(' ')
    with world(World({tuple(words): [types.SimpleNamespace(
            tree=t, score=-1.)]})):
        p = DepCCGParser()
        c.ev('bad_category')
        c.raises(Exception, lambda: p.sentence2tree(words, tokenised=True),
                 'category-mistaken', str(odd))
    c.sig('refused', key(t))


EN_ROOTS = ['S[dcl]', 'S[wq]', 'S[q]', 'S[qem]', 'NP']


def fam_options(c):
    """depccg is given what was asked for."""
    kw, extra = {}, {}
    lang = c.choice(['en', 'en', 'EN', 'ja'])
    if lang != 'en' or c.p(.3):
        kw['lang'] = lang
    ja = lang == 'ja'
    c.ev('japanese' if ja else 'english')
    roots = None
    if c.p(.5):
        roots = c.rng.sample(['S[dcl]', 'NP', r'S\NP', '(S/NP)', 'N'],
                             c.int(1, 3))
        kw['root_cats'] = c.choice([list, tuple, iter])(roots)
        c.ev('root_cats')
    if c.p(.4):
        kw['model'] = c.choice(['elmo', 'rebank'])
    if c.p(.4):
        kw['device'] = c.choice([0, 1])
    own = c.p(.6)
    c.ev('own_unary' if own else 'model_unary')
    if not own or c.p(.3):
        kw['use_model_unary_rules'] = not own
    if lang == 'EN' and own:
        c.skip('no rules are given for a language in capitals')
    if c.p(.5):
        kw['annotator'] = c.choice(['spacy', 'janome', 'jigg', 'nothing'])
        c.ev('annotator')
    tokenize = None
    if c.p(.4):
        tokenize = kw['tokenize'] = c.p(.5)
    if c.p(.4):
        extra = {k: c.int(1, 9) for k in ('nbest', 'max_step', 'pruning_size')
                 if c.p(.6)}
        c.ev('kwargs')
    c.note(**kw, **extra)
    node = rand_node(c)
    t = tree_of(c, node)
    words = t.word.split(' ')
    with world(World({tuple(words): [types.SimpleNamespace(
            tree=t, score=-1.)]})) as w:
        p = DepCCGParser(**kw, **extra)
        judge(c, t, node, p.sentence2tree(words, tokenised=True))
        log = w.log
        name = kw.get('annotator', 'janome')
        known = ['janome', 'jigg'] if ja else ['spacy']
        if name not in known:
            c.ev('unknown_annotator')
            name = 'XX'
        c.eq([x[1:] for x in log if x[0] == 'annotate'],
             [(name, ja if tokenize is None else tokenize)], 'annotator')
        c.eq([x[1].lower() for x in log if x[0] == 'language'],
             [lang.lower()], 'language')
        c.eq([x[1:] for x in log if x[0] == 'load'],
             [(kw.get('model'), kw.get('device', -1))], 'model')
        c.eq([x[1] for x in log if x[0] == 'predict'], [[words]], 'tagged')
        (run,) = [x[1:] for x in log if x[0] == 'run']
        cats, got_roots, binary, got_kw = run
        c.eq(cats, [str(Cat.parse(x)) for x in
                    ('N', r'S[dcl]\NP', '(NP/N)', ',')], 'categories')
        if roots:
            c.eq(got_roots, [str(Cat.parse(x)) for x in roots], 'roots')
        elif not ja:
            c.eq(sorted(got_roots), sorted(EN_ROOTS), 'roots')
        else:
            c.check(got_roots and all(x.startswith(('S[', 'NP['))
                                      for x in got_roots), 'roots')
        c.eq(binary, 'binary', 'binary-rules')
        c.eq(got_kw, extra, 'keywords')
        (unary,) = w.unary
        if not own:
            c.eq(unary, 'unary of the model', 'unary-rules')
        else:
            c.check(callable(unary), 'unary-rules', repr(unary))
            c.eq([str(x) for x in unary(Cat.parse('N'))], ['NP'],
                 'unary-rules')
            c.eq(unary(Cat.parse('S[dcl]')), [], 'unary-rules')
            for x in ('NP', 'PP'):
                for y in unary(Cat.parse(x)):
                    y = plain(y)
                    # each raises what it is given
                    c.check(y[2][2] == plain(Cat.parse(x))
                            and y[1] == y[2][1] and y[0] != y[2][0],
                            'unary-rules', f'{x} {y}')
    c.sig('options', sorted(map(str, kw.items())), sorted(extra.items()))


def fam_bad(c):
    with world(World()) as w:
        if c.p(.5):
            c.ev('bad_language')
            c.raises(ValueError, lambda: DepCCGParser(lang=c.choice(
                ['fr', '', 'english', 'e'])), 'language-accepted')
        else:
            c.ev('bad_verbosity')
            v = c.choice(['text', 'suppress', 'loud'])
            c.raises(ValueError, lambda: DepCCGParser(verbose=v),
                     'verbosity-accepted')
            p = DepCCGParser()
            c.raises(ValueError, lambda: p.sentences2trees(
                ['a b'], verbose=v), 'verbosity-accepted')
        c.eq([x for x in w.log if x[0] in ('predict', 'run')], [],
             'parsed-nonetheless')
    c.sig('bad', c.index % 7)


FAMILIES = [Family('trees', fam_trees, 1200, 12000),
            Family('refused', fam_refused, 200, 2000),
            Family('options', fam_options, 300, 3000),
            Family('bad', fam_bad, 20, 100)]
