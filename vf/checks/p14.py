"""P14 Batch parsing stays aligned and isolates failing sentences."""
import copy
import math
import os
import shutil
import tempfile
import types

import torch

from lambeq import (BobcatParseError, BobcatParser, CCGBankParseError,
                    CCGBankParser, DepCCGParser, DepCCGParseError,
                    OncillaParseError, OncillaParser, TreeReader, WebParser,
                    WebParseError, cups_reader, spiders_reader,
                    stairs_reader)
from lambeq.text2diagram.ccg_parser import CCGParser
from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType

from vf import bob, tiny
from vf.checks import p41
from vf.core import Case, Family

RULE = 'distinct (parser, batch pattern, options) combinations'
REQUIRED = ['stub', 'ccgbank', 'web', 'depccg', 'bobcat', 'oncilla',
            'linear', 'tree_reader', 'blank', 'failing',
            'diagram_failing', 'suppressed', 'raised_first', 'duplicates',
            'tokenised', 'untokenised', 'wrong_form', 'batched',
            'tokenless', 'truncated', 'all_bad', 'empty_batch', 'web_bad',
            'web_offline', 'generator_matches']
WORKERS = 8
DIR = None
BOB = []
ONC = []


def setup():
    global DIR
    tiny.shim()
    DIR = tempfile.mkdtemp(prefix='vf_p14_')
    try:
        for k in range(2):
            c = Case('P14', 'grammar', 1, k, 'quick')
            g, lex, labels = bob.make_grammar(c)
            path = os.path.join(DIR, f'bob{k}')
            tiny.bobcat(path, labels, lex, g, seed=k)
            p = BobcatParser(path, verbose='suppress')
            p.tagger.model.double()
            BOB.append((p, path))
        for k in range(2):
            path = os.path.join(DIR, f'onc{k}')
            tiny.oncilla(path, seed=k)
            p = OncillaParser(path, verbose='suppress')
            p.model.position_ids = torch.arange(64)[None]
            p.model.double()
            ONC.append(p)
    finally:
        shutil.rmtree(DIR)


# -- the generic judge -----------------------------------------------------
def outcome(f):
    try:
        return ('ok', f())
    except Exception as e:      # compared between calls, never swallowed
        return ('exc', e)


def same(a, b):
    if isinstance(a, CCGTree) and isinstance(b, CCGTree):
        return tree_key(a) == tree_key(b)
    return type(a) is type(b) and a == b


def tree_key(t):
    return (t.text if not t.children else None, t.rule, str(t.biclosed_type),
            tuple(map(tree_key, t.children)))


def judge(c, many, one, batch, tokenised, errors, what):
    """`many(batch, suppress)` against `one(sentence, suppress)`.
    errors: exception types documented for failing sentences."""
    words = [s if tokenised else s.split() for s in batch]
    alone = [outcome(lambda s=s: one(copy.deepcopy(s), False))
             for s in batch]
    for w, (st, v) in zip(words, alone):
        if st == 'exc':
            want = ValueError if not w else errors
            c.check(isinstance(v, want), 'undocumented-error',
                    f'{what} {w}: {type(v).__name__}: {v}')
            c.ev('failing' if w else 'blank')
        else:
            c.check(v is not None, 'silent-failure', f'{what} {w}')
    quiet = [outcome(lambda s=s: one(copy.deepcopy(s), True))
             for s in batch]
    for w, a, q in zip(words, alone, quiet):
        c.check(q[0] == 'ok', 'suppressed-raised', f'{what} {w}: {q[1]!r}')
        if a[0] == 'ok':
            c.check(same(a[1], q[1]), 'suppression-changes', f'{what} {w}')
        else:
            c.check(q[1] is None, 'suppressed-not-none', f'{what} {w}')
    # the batch
    given = copy.deepcopy(batch)
    got = outcome(lambda: many(given, True))
    c.eq(given, batch, 'input-altered', what)
    c.check(got[0] == 'ok', 'batch-raised', f'{what} {batch}: {got[1]!r}')
    out = got[1]
    c.check(isinstance(out, list) and len(out) == len(batch),
            'batch-length', f'{what} {batch}: {out!r}')
    for i, (o, q) in enumerate(zip(out, quiet)):
        c.check(same(o, q[1]), 'misaligned',
                f'{what} entry {i} of {batch}: {o!r} != {q[1]!r}')
    bad = [i for i, a in enumerate(alone) if a[0] == 'exc']
    c.ev('suppressed', len(bad))
    given = copy.deepcopy(batch)
    got = outcome(lambda: many(given, False))
    c.eq(given, batch, 'input-altered', what)
    if not bad:
        c.check(got[0] == 'ok', 'batch-raised', f'{what} {got[1]!r}')
        c.check(len(got[1]) == len(batch)
                and all(same(o, a[1]) for o, a in zip(got[1], alone)),
                'batch-without-suppression', what)
    else:
        c.check(got[0] == 'exc', 'failure-hidden', f'{what} {batch}')
        # blank sentences are refused before anything is parsed
        kinds = {(ValueError if not words[i] else type(alone[i][1]))
                 for i in bad}
        c.check(isinstance(got[1], tuple(kinds)), 'undocumented-batch-error',
                f'{what} {got[1]!r}')
        parsed = [i for i in bad if words[i]]
        if len(parsed) == len(bad) and hasattr(got[1], 'sentence'):
            # all sentences are parsed before diagrams are made
            first = [alone[i][1] for i in bad
                     if type(alone[i][1]) is type(got[1])][0]
            c.eq(str(got[1]), str(first), 'not-the-first-failure', what)
            c.ev('raised_first')
    if batch and len(bad) == len(batch):
        c.ev('all_bad')
    if len({str(w) for w in words}) < len(words):
        c.ev('duplicates')
    if not batch:
        c.ev('empty_batch')
    return alone


def rand_batch(c, good, bad, blank, n=None):
    n = c.choice([0, 1, 2, 3, 4, 6]) if n is None else n
    q = c.choice([0, .2, .5, 1])
    out = []
    for _ in range(n):
        if out and c.p(.2):
            out.append(copy.deepcopy(c.choice(out)))
        elif c.p(q):
            out.append(blank(c) if c.p(.4) else bad(c))
        else:
            out.append(good(c))
    return out


def as_input(c, batch):
    """Word lists, or strings with odd spacing."""
    if c.p(.5):
        c.ev('tokenised')
        return batch, True
    c.ev('untokenised')
    seps = [' ', ' ', '  ', '\t', ' \n ']
    out = []
    for words in batch:
        s = ''
        for i, w in enumerate(words):
            s += (c.choice(seps) if i else c.choice(['', '', ' '])) + w
        out.append(s + c.choice(['', '', ' ', '\n']))
    return out, False


def forms_agree(c, many, batch, what):
    """Strings and word lists give the same."""
    a = many([' '.join(s) for s in batch], True, False)
    b = many([list(s) for s in batch], True, True)
    c.check(len(a) == len(b) and all(map(same, a, b)), 'forms-disagree',
            f'{what} {batch}')
    if batch:
        c.ev('wrong_form')
        c.raises(ValueError, lambda: many([' '.join(s) for s in batch], True,
                                          True), 'wrong-form-accepted', what)
        c.raises(ValueError, lambda: many([list(s) for s in batch], True,
                                          False), 'wrong-form-accepted', what)


# -- trees for the stubbed parsers ------------------------------------------
def leaf(word, cat):
    return CCGTree(text=word, biclosed_type=CCGType.parse(cat))


def word_tree(words):
    """'n*' words are nouns, 'v' a verb, 'a' an adjective: a deterministic
    tree, or an exception for words beginning with 'x'; a word 'u' gives a
    tree that has no diagram."""
    for w in words:
        if w.startswith('x'):
            raise KeyError(w)
    t = leaf(words[0], 'NP')
    for w in words[1:]:
        if w == 'u':
            t = CCGTree(rule=CCGRule.UNKNOWN, children=[t, leaf(w, 'NP')],
                        biclosed_type=CCGType.parse('NP'))
            continue
        t = CCGTree(rule=CCGRule.BACKWARD_APPLICATION,
                    children=[t, leaf(w, r'NP\NP')],
                    biclosed_type=CCGType.parse('NP'))
    return t


class StubError(Exception):
    pass


class Stub(CCGParser):
    """The least a CCGParser has to supply."""

    def sentences2trees(self, sentences, tokenised=False,
                        suppress_exceptions=False, verbose=None):
        out = []
        for s in sentences:
            words = s if tokenised else s.split()
            try:
                if not words:
                    raise ValueError('blank')
                out.append(word_tree(words))
            except Exception as e:
                if not suppress_exceptions:
                    if words:
                        raise StubError(words) from e
                    raise
                out.append(None)
        return out


GOOD = ['n', 'nn', 'no', 'a', 'é', 'The', '.', ',']


def good_words(c):
    return [c.choice(GOOD) for _ in range(c.int(1, 4))]


def bad_words(c):
    return good_words(c)[:2] + [c.choice(['xa', 'x'])]


def undrawn(c):
    return good_words(c) + ['u']


def blank_words(c):
    return []


def ccg_both(c, parser, tree_errors, what, batch=None, diagram_errors=None):
    batch = rand_batch(c, good_words, bad_words, blank_words
                       ) if batch is None else batch
    sents, tok = as_input(c, batch)
    c.note(what, batch=batch, tokenised=tok)
    c.sig((what, tok, tuple(''.join(sorted(set('x' in ''.join(b) and 'x' or (
        'u' in b and 'u' or 'g'))) if b else '-') for b in batch)))
    if c.p(.5):
        judge(c, lambda b, q: parser.sentences2trees(
                  b, tokenised=tok, suppress_exceptions=q),
              lambda s, q: parser.sentence2tree(
                  s, tokenised=tok, suppress_exceptions=q),
              sents, tok, tree_errors, what + ' trees')
    else:
        kw = dict(planar=c.p(.3), collapse_noun_phrases=c.p(.7))
        judge(c, lambda b, q: parser.sentences2diagrams(
                  b, tokenised=tok, suppress_exceptions=q, **kw),
              lambda s, q: parser.sentence2diagram(
                  s, tokenised=tok, suppress_exceptions=q, **kw),
              sents, tok, diagram_errors or Exception, what + ' diagrams')
        if any('u' in b for b in batch):
            c.ev('diagram_failing')


def fam_stub(c):
    batch = rand_batch(c, good_words,
                       lambda c: c.choice([bad_words, undrawn])(c),
                       blank_words)
    p = Stub()
    c.ev('stub')
    ccg_both(c, p, StubError, 'stub', batch)
    if c.p(.3):
        forms = [b for b in batch if b]
        for b in forms[:1]:
            for f in (p.sentence2tree, p.sentence2diagram):
                c.ev('wrong_form')
                c.raises(ValueError, lambda: f(' '.join(b), tokenised=True),
                         'wrong-form-accepted')
                c.raises(ValueError, lambda: f(list(b), tokenised=False),
                         'wrong-form-accepted')
    if c.p(.3):
        # the derived readers go through the parser too
        r = TreeReader(ccg_parser=Stub())
        c.ev('tree_reader')
        plain(c, r, [b for b in batch if 'u' not in b])


def plain(c, reader, batch):
    """Readers without suppression."""
    batch = [b for b in batch if b and not any(w[0] == 'x' for w in b)]
    sents, tok = as_input(c, batch)
    given = copy.deepcopy(sents)
    out = reader.sentences2diagrams(given, tokenised=tok)
    c.eq(given, sents, 'input-altered')
    c.check(isinstance(out, list) and len(out) == len(batch), 'batch-length')
    for s, o in zip(sents, out):
        c.check(same(o, reader.sentence2diagram(s, tokenised=tok)),
                'misaligned', repr(s))
    a = reader.sentences2diagrams([' '.join(b) for b in batch])
    b = reader.sentences2diagrams(batch, tokenised=True)
    c.check(len(a) == len(b) and all(map(same, a, b)), 'forms-disagree')


def fam_linear(c):
    r = c.choice([cups_reader, stairs_reader, spiders_reader])
    c.ev('linear')
    batch = rand_batch(c, good_words, good_words, good_words)
    c.sig(('linear', type(r).__name__, tuple(map(len, batch))))
    c.note(batch=batch)
    plain(c, r, batch)


# -- CCGBank -----------------------------------------------------------------
def bank(words):
    out = f'(<L NP NN NN {words[0]} NP>)'
    for w in words[1:]:
        out = rf'(<T NP 0 2> {out} (<L NP\NP NN NN {w} NP\NP>) )'
    return out + ' '


def fam_ccgbank(c):
    p = CCGBankParser(root='.', verbose='suppress')
    words = rand_batch(c, lambda c: [w for w in good_words(c)
                                     if w not in '.,'] or ['n'],
                       lambda c: ['x'], lambda c: [])
    batch = []
    for w in words:
        s = bank([v.rstrip() for v in w]).rstrip() if w else ''
        if w == ['x']:
            s = c.choice([s[:-3], s + ' )', 'nonsense', s.replace('NP', '?'),
                          s[1:], '((('])
        batch.append(s)
    c.ev('ccgbank')
    c.note(batch=batch)
    c.sig(('bank', tuple('-' if not w else w[0] == 'x' for w in words)))

    def many(b, q):
        return p.sentences2trees(b, suppress_exceptions=q)

    def one(s, q):
        return p.sentence2tree(s, suppress_exceptions=q)
    # an empty string is a failing derivation here
    if c.p(.5):
        judge(c, many, one, batch, False, CCGBankParseError, 'CCGBank') \
            if '' not in batch else judge_blank(c, many, one, batch)
    else:
        judge(c, lambda b, q: p.sentences2diagrams(b, suppress_exceptions=q),
              lambda s, q: p.sentence2diagram(s, suppress_exceptions=q),
              [b for b in batch if b], False, CCGBankParseError, 'CCGBank')
    if batch:
        c.raises(ValueError, lambda: p.sentences2trees(
            [[b] for b in batch], tokenised=True), 'tokenised-accepted')
        section(c, p, [b for b in batch if b])


def judge_blank(c, many, one, batch):
    out = many(list(batch), True)
    c.eq(len(out), len(batch), 'batch-length')
    for s, o in zip(batch, out):
        c.check(same(o, one(s, True)), 'misaligned', s)
        if not s:
            c.check(o is None, 'blank-parsed')
            c.ev('blank')
    c.raises((CCGBankParseError, ValueError), lambda: many(batch, False),
             'failure-hidden')


def section(c, p, batch):
    """The section readers give what the entries give alone."""
    path = tempfile.mkdtemp(prefix='vf_p14_')
    try:
        os.makedirs(os.path.join(path, 'data', 'AUTO', '00'))
        with open(os.path.join(path, 'data', 'AUTO', '00', 'wsj_0001.auto'),
                  'w') as f:
            for i, b in enumerate(batch):
                f.write(f'ID=wsj_0001.{i + 1} PARSER=GOLD NUMPARSE=1\n'
                        f'{b}\n')
        q = CCGBankParser(root=path, verbose='suppress')
        got = q.section2trees(0, suppress_exceptions=True)
        c.eq(list(got), [f'wsj_0001.{i + 1}' for i in range(len(batch))],
             'section-ids')
        for b, t in zip(batch, got.values()):
            c.check(same(t, p.sentence2tree(b, suppress_exceptions=True)),
                    'section-misaligned', b)
        d = q.section2diagrams(0, suppress_exceptions=True)
        for b, t in zip(batch, d.values()):
            c.check(same(t, p.sentence2diagram(b, suppress_exceptions=True)),
                    'section-misaligned', b)
        c.ev('generator_matches')
    finally:
        shutil.rmtree(path)


# -- the web parser, with the network replaced ---------------------------------
class Reply:
    def __init__(self, data):
        self.data = data

    def json(self):
        import requests
        if self.data is ValueError:
            raise requests.JSONDecodeError('bad', 'doc', 0)
        return self.data


def fam_web(c):
    import requests
    offline = c.p(.5)
    asked = []

    def get(url, params=None, **kw):
        words = params['sentence'].split()
        asked.append(params['sentence'])
        if 'xo' in words:
            raise requests.ConnectionError('offline')
        if 'xj' in words:
            return Reply(ValueError)
        if 'xd' in words:
            return Reply({'error': 'cannot parse'})
        if 'xt' in words:
            return Reply({'type': 'NP//', 'text': 'x'})
        return Reply(word_tree(words).to_json())
    kinds = ['xj', 'xd', 'xt'] + ['xo'] * offline
    real, requests.get = requests.get, get
    try:
        p = WebParser()
        batch = rand_batch(c, good_words,
                           lambda c: c.choice([undrawn(c), good_words(c)
                                               + [c.choice(kinds)]]),
                           blank_words)
        c.ev('web')
        if any('xo' in b for b in batch):
            c.ev('web_offline')
        if any('xd' in b for b in batch):
            c.ev('web_bad')
        ccg_both(c, p, (WebParseError, requests.RequestException), 'web',
                 batch, Exception)
        if c.p(.3):
            forms_agree(c, lambda b, q, t: p.sentences2trees(
                b, tokenised=t, suppress_exceptions=q),
                [b for b in batch if b], 'web')
        c.check(all(s == ' '.join(s.split()) and s for s in asked),
                'blank-sent', asked)
    finally:
        requests.get = real


# -- depccg, with the external parser replaced -----------------------------------
def as_depccg(t):
    """A tree as depccg would return it."""
    def cat(ty):
        if ty.is_complex:
            return p41.Cat(left=cat(ty.result), slash=ty.direction,
                           right=cat(ty.argument))
        return p41.Cat({'n': 'N', 'np': 'NP', 's': 'S', 'p': 'PP',
                        'punc': ','}.get(ty.name, ty.name))
    return p41.Tree(cat(t.biclosed_type), t.rule.value.lower(), '<?>',
                    map(as_depccg, t.children),
                    word=t.text if not t.children else None)


class Answers(p41.World):
    """Fails where a word begins with an x."""
    def __init__(self):
        super().__init__()
        self.answers = self

    def __getitem__(self, words):
        bad = any(w[0] == 'x' for w in words)
        return [types.SimpleNamespace(
            score=-math.inf if bad else -1.,
            tree=None if bad else as_depccg(word_tree(words)))]


def fam_depccg(c):
    c.ev('depccg')
    with p41.world(Answers()):
        p = DepCCGParser()
        batch = rand_batch(c, good_words, lambda c: c.choice(
            [bad_words, undrawn])(c), blank_words)
        ccg_both(c, p, DepCCGParseError, 'depccg', batch)
        if c.p(.3):
            forms_agree(c, lambda b, q, t: p.sentences2trees(
                b, tokenised=t, suppress_exceptions=q),
                [b for b in batch if b], 'depccg')


# -- Bobcat ------------------------------------------------------------------
ODD = ['\u200b', '\x00', '\ufffd']


def model_words(c):
    n = c.choice([1, 2, 2, 3, 3, 4, 5])
    out = [c.choice(tiny.WORDS + ['unking', 'dogss', 'Mary', '42', '$1,000'])
           for _ in range(n)]
    return out


def hard_words(c):
    out = model_words(c)
    if c.p(.6):
        out.insert(c.int(0, len(out)), c.choice(ODD))
        c.ev('tokenless')
    else:
        out = (out * 70)[:c.int(63, 66)]
        c.ev('truncated')
    return out


def short_hard(c):
    out = model_words(c)
    out.insert(c.int(0, len(out)), c.choice(ODD))
    c.ev('tokenless')
    return out


OPTS = {'tag_top_k': [0, 1, 2, 5], 'tag_prob_threshold': [0, .01, .3, 1],
        'span_top_k': [0, 1, 3], 'span_prob_threshold': [0, .05, 1]}


def set_opts(c, t):
    t.batch_size = c.choice([1, 2, 3, 8])
    if t.batch_size > 1:
        c.ev('batched')
    for k, v in OPTS.items():
        setattr(t, k, c.choice(v))
    for k in ('tag', 'span'):
        setattr(t, f'{k}_prob_threshold_strategy',
                c.choice(['relative', 'absolute']))


def fam_bobcat(c):
    p, _ = c.choice(BOB)
    set_opts(c, p.tagger)
    if c.p(.6):
        p.tagger.tag_top_k = c.choice([2, 3])
        p.tagger.tag_prob_threshold = 0
        p.tagger.span_top_k = p.tagger.span_prob_threshold = 0
    batch = rand_batch(c, model_words, short_hard, blank_words,
                       n=c.choice([0, 1, 2, 3, 4]))
    sents, tok = as_input(c, batch)
    c.ev('bobcat')
    c.note(batch=batch, tokenised=tok, bs=p.tagger.batch_size)
    c.sig(('bob', p.tagger.batch_size, tok, tuple(map(len, batch))))
    if c.p(.6):
        al = judge(c, lambda b, q: p.sentences2trees(
                       b, tokenised=tok, suppress_exceptions=q),
                   lambda s, q: p.sentence2tree(
                       s, tokenised=tok, suppress_exceptions=q),
                   sents, tok, BobcatParseError, 'bobcat')
        for words, (st, t) in zip(batch, al):
            if st == 'ok':
                c.eq(leaves(t), words, 'leaves')
                c.ev('bobcat_parsed')
    else:
        judge(c, lambda b, q: p.sentences2diagrams(
                  b, tokenised=tok, suppress_exceptions=q),
              lambda s, q: p.sentence2diagram(
                  s, tokenised=tok, suppress_exceptions=q),
              sents, tok, Exception, 'bobcat')
    if c.p(.3):
        forms_agree(c, lambda b, q, t: p.sentences2trees(
            b, tokenised=t, suppress_exceptions=q),
            [b for b in batch if b], 'bobcat')


def leaves(t):
    return ([t.text] if not t.children
            else [w for k in t.children for w in leaves(k)])


# -- Oncilla -----------------------------------------------------------------
def fam_oncilla(c):
    p = c.choice(ONC)
    batch = rand_batch(c, model_words, lambda c: c.choice(
        [hard_words(c), ['.'], ['\u200b']]), blank_words)
    batch = [b + ['.'] if b and c.p(.2) else b for b in batch]
    sents, tok = as_input(c, batch)
    c.ev('oncilla')
    c.note(batch=batch, tokenised=tok)
    c.sig(('onc', tok, tuple(map(len, batch))))
    judge(c, lambda b, q: p.sentences2diagrams(
              b, tokenised=tok, suppress_exceptions=q),
          lambda s, q: p.sentence2diagram(
              s, tokenised=tok, suppress_exceptions=q),
          sents, tok, OncillaParseError, 'oncilla')
    if c.p(.3):
        forms_agree(c, lambda b, q, t: p.sentences2diagrams(
            b, tokenised=t, suppress_exceptions=q),
            [b for b in batch if b], 'oncilla')


FAMILIES = [
    Family('stub', fam_stub, 300),
    Family('linear', fam_linear, 100),
    Family('ccgbank', fam_ccgbank, 120),
    Family('web', fam_web, 200),
    Family('depccg', fam_depccg, 200),
    Family('bobcat', fam_bobcat, 160, 1000),
    Family('oncilla', fam_oncilla, 160, 1000),
]
