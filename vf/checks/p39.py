"""P39 Bobcat's tagger reports the model's own best scores, and the parser
uses exactly these."""
import copy
import math
import os
import shutil
import tempfile
import types

import torch

from lambeq import BobcatParser
from lambeq.bobcat import ChartParser, Grammar, tagger as T
from lambeq.bobcat.tagger import Tagger
from vf import bob, tiny
from vf.core import Case, Family

RULE = 'distinct (options, sentence lengths, place in history) combinations'
REQUIRED = ['weights', 'stub', 'batched', 'padded', 'tokenless', 'truncated',
            'pieces', 'relative', 'absolute', 'cut', 'all_cut', 'top_k',
            'empty_label_best', 'tied', 'extreme', 'batch_size_arg',
            'repeated', 'text_form', 'dict_form', 'handed_over', 'options',
            'bad_option', 'spans', 'fresh_memo', 'one_word', 'kept_span', 'parsed']
WORKERS = 8
BOB = []
DIR = None


def setup():
    global DIR
    tiny.shim()
    DIR = tempfile.mkdtemp(prefix='vf_p39_')
    for k in range(2):
        c = Case('P39', 'grammar', 1, k, 'quick')
        g, lex, labels = bob.make_grammar(c)
        path = os.path.join(DIR, f'bob{k}')
        tiny.bobcat(path, labels, lex, g, seed=k)
        p = BobcatParser(path, verbose='suppress')
        p.tagger.model.double()
        BOB.append((p, path))


def teardown():
    shutil.rmtree(DIR, ignore_errors=True)


ODD = ['', ' ', '\u200b', '\x07', '\ufeff', '\u00ad']


def words_of(c):
    n = c.choice([1, 1, 2, 2, 3, 3, 4, 5, 7])
    out = [c.choice(tiny.WORDS + ['unking', 'dogss', '42', '$1,000',
                                  'Marys', 'é'])
           for _ in range(n)]
    if any(w not in tiny.WORDS for w in out):
        c.ev('pieces')
    if c.p(.08):
        out.insert(c.int(0, len(out)), c.choice(ODD))
        c.ev('tokenless')
    elif c.p(.04):
        out = (out * 70)[:c.int(61, 66)]
        c.ev('truncated')
    if len(out) == 1:
        c.ev('one_word')
    return out


K = [0, 0, 1, 2, 3, 5, 50]
PROB = [0, 0, .001, .01, .1, .3, .9, 1]


def options(c):
    o = {'batch_size': c.choice([1, 2, 3, 8])}
    for k in ('tag', 'span'):
        o[f'{k}_top_k'] = c.choice(K)
        o[f'{k}_prob_threshold'] = c.choice(PROB)
        o[f'{k}_prob_threshold_strategy'] = c.choice(['relative', 'absolute'])
        c.ev(o[f'{k}_prob_threshold_strategy'])
    return o


def scores(c, got, want, o, kind, eps=1e-9):
    top_k = o[f'{kind}_top_k']
    prob = o[f'{kind}_prob_threshold']
    ranked = sorted(((s, i) for i, s in enumerate(want)), reverse=True)
    best = ranked[0][0]
    low = (-math.inf if prob == 0 else math.log(prob)
           + (best if o[f'{kind}_prob_threshold_strategy'] == 'relative'
              else 0))
    # equal scores may be kept in any order
    cut = ranked[top_k - 1][0] if 0 < top_k < len(ranked) else -math.inf
    must = {i for s, i in ranked if s > cut + eps and s >= low + eps}
    if cut == -math.inf:
        must = {i for s, i in ranked if s >= low + eps}
    may = {i for s, i in ranked if s >= cut - eps and s >= low - eps}
    size = min(top_k or len(want), len(want))
    if len(may) < len(want):
        c.ev('cut')
    if top_k:
        c.ev('top_k')
    if not may:
        c.ev('all_cut')
    if kind == 'span':
        if ranked[0][1] == 0:
            c.ev('empty_label_best')
        must, may = must - {0}, may - {0}
    have = [i for i, _ in got]
    c.check(len(set(have)) == len(have), 'label-twice', str(have))
    c.check(must <= set(have) <= may, 'kept-labels',
            lambda: f'{kind}: {sorted(have)}, not {sorted(must)} .. '
            f'{sorted(may)}')
    c.check(len(have) <= size, 'too-many-labels', f'{len(have)} > {size}')
    n = sum(s >= low + eps for s, _ in ranked[:size])
    if kind == 'span' and n:
        # the empty label may have been one of the best
        n -= 0 in {i for s, i in ranked if s >= ranked[n - 1][0] - eps}
    c.check(len(have) >= n, 'too-few-labels', f'{len(have)} < {n}')
    if len(set(round(s, 7) for s in want)) < len(want):
        c.ev('tied')
    for i, s in got:
        c.check(type(i) is int and type(s) is float, 'label-types')
        c.check(abs(s - want[i]) <= 1e-8 * max(1, abs(want[i]))
                or s == want[i], 'score', lambda: f'{i}: {s} {want[i]}')
    ss = [s for _, s in got]
    c.check(all(a >= b for a, b in zip(ss, ss[1:])), 'score-order')


def all_spans(n):
    return [(i, j) for j in range(n) for i in range(j + 1)]


def judge(c, out, s, words, tags, spans, o, eps=1e-9):
    """A sentence of the output against the scores of the model."""
    c.eq(s.words, words, 'words')
    c.eq(type(s.words), list, 'words')
    c.eq(len(s.tags), len(tags), 'tag-count', str(words))
    for got, want in zip(s.tags, tags):
        scores(c, got, want, o, 'tag', eps)
    got = {(a, b): x for a, b, x in s.spans}
    c.eq(len(got), len(s.spans), 'span-twice')
    c.check(set(got) <= set(spans), 'span-outside',
            lambda: f'{sorted(set(got) - set(spans))}')
    c.check(all(got.values()), 'empty-span')
    for k, want in spans.items():
        scores(c, got.get(k, []), want, o, 'span', eps)
        c.ev('kept_span', bool(got.get(k)))


def set_options(c, t, o):
    for k, v in o.items():
        setattr(t, k, v)


def fresh(c):
    if c.p(.3):
        # as if nothing had been tagged before
        T.SPAN_MEMO.clear()
        c.ev('fresh_memo')


def call(c, t, batch, o):
    given = copy.deepcopy(batch)
    kw = {}
    if c.p(.2):
        kw['batch_size'] = c.choice([1, 2, 5])
        c.ev('batch_size_arg')
    out = t(given, verbose='suppress', **kw)
    bs = kw.get('batch_size', o['batch_size'])
    if bs > 1 and len(batch) > 1:
        c.ev('batched')
        if any(len({len(w) for w in batch[i:i + bs]}) > 1
               for i in range(0, len(batch), bs)):
            c.ev('padded')
    c.eq(given, batch, 'input-altered')
    c.eq(t.batch_size, o['batch_size'], 'option-altered')
    c.eq(len(out.sentences), len(batch), 'batch-length')
    c.eq((out.tags, out.cats), (t.model.config.tags, t.model.config.cats),
         'labels')
    return out


def forms(c, out):
    """The output as text and as plain data say the same."""
    if c.p(.3):
        d = out.asdict()
        c.eq((d['tags'], d['cats']), (out.tags, out.cats), 'dict-form')
        c.eq([(s['words'], s['tags'], s['spans']) for s in d['sentences']],
             [(s.words, s.tags, s.spans) for s in out.sentences],
             'dict-form')
        c.ev('dict_form')
    if c.p(.3) and all(w.strip() and len(w.split()) == 1
                       for s in out.sentences for w in s.words):
        n = c.choice([3, 6, 10])
        lines = out.astext(n).split('\n')
        c.eq(lines[:3], ['tags: ' + ' '.join(out.tags),
                         'cats: ' + ' '.join(out.cats), 'sentences:'],
             'text-form')
        lines = [x.strip() for x in lines[3:] if x.strip()]
        c.eq(len(lines), 3 * len(out.sentences), 'text-form')

        def read(x):
            return [(int(a), float(b)) for a, b in (
                y.split('=') for y in x.split(',') if y)]

        def near(a, b):
            c.eq([i for i, _ in a], [i for i, _ in b], 'text-form')
            c.check(all(abs(x - y) <= 10 ** (1 - n) * max(1e-6, abs(y))
                        or x == y for (_, x), (_, y) in zip(a, b)),
                    'text-form', lambda: f'{a} {b}')
        for k, s in enumerate(out.sentences):
            w, t, p = lines[3 * k:3 * k + 3]
            c.eq(w, 'words: ' + ' '.join(s.words), 'text-form')
            if all(s.tags):
                t = t.split()[1:]
                c.eq(len(t), len(s.tags), 'text-form')
                for a, b in zip(t, s.tags):
                    near(read(a), b)
            p = p.split()[1:]
            c.eq(len(p), len(s.spans), 'text-form')
            for a, (i, j, b) in zip(p, s.spans):
                c.check(a.startswith(f'{i},{j}:'), 'text-form', a)
                near(read(a.split(':')[1]), b)
        c.ev('text_form')


def direct(t, words):
    """What the weights of the model say of one sentence."""
    m = t.model
    enc = t.tokenizer(words, is_split_into_words=True, truncation=True)
    first = {}
    for i, w in enumerate(enc.word_ids()):
        if w is not None:
            first.setdefault(w, i)
    with torch.no_grad():
        h = m.bert(torch.tensor([enc['input_ids']]),
                   attention_mask=torch.ones(1, len(enc['input_ids']),
                                             dtype=torch.long))[0][0]
        seq = [h[i] for _, i in sorted(first.items())]
        tags = [m.tag_classifier(x).log_softmax(-1).tolist() for x in seq]
        spans = {(i, j): m.span_classifier(torch.cat([seq[i], seq[j]])
                                           ).log_softmax(-1).tolist()
                 for i, j in all_spans(len(seq))}
    return tags, spans


def fam_weights(c):
    """Scores against the model's own weights, one word at a time."""
    p, _ = c.choice(BOB)
    t = p.tagger
    fresh(c)
    for turn in range(c.int(1, 3)):
        o = options(c)
        set_options(c, t, o)
        batch = [words_of(c) for _ in range(c.int(1, 5))]
        c.note(batch=batch, options=o)
        c.sig(o, tuple(map(len, batch)), turn)
        out = call(c, t, batch, o)
        if turn:
            c.ev('repeated')
        for words, s in zip(batch, out.sentences):
            judge(c, out, s, words, *direct(t, words), o)
        c.ev('weights')
        forms(c, out)


class Stub:
    """A model of arbitrary scores, which only knows the sentences' size."""
    device = 'cpu'

    def __init__(self, c, n_tags, n_cats):
        self.c = c
        self.config = types.SimpleNamespace(
            tags=[f't{i}' for i in range(n_tags)],
            cats=[f'c{i}' for i in range(n_cats)])
        self.memo = {}

    def table(self, key, n):
        """The scores of a word or span of a sentence, as logits."""
        if key not in self.memo:
            c = self.c
            how = c.int(0, 3)
            x = [c.rng.gauss(0, 3) for _ in range(n)]
            if how == 1:
                x = [float(c.int(-2, 2)) for _ in range(n)]     # ties
            elif how == 2:
                x = [v * 30 for v in x]
                c.ev('extreme')
            elif how == 3 and n > 1:
                # nothing stands out, or the first does
                x = [0.] * n
                x[c.int(0, 1)] = c.choice([0., 1., 20.])
            self.memo[key] = x
        return self.memo[key]

    def __call__(self, input_ids, word_mask, **kw):
        nt, nc = len(self.config.tags), len(self.config.cats)
        masks = [m.nonzero().squeeze(-1).tolist() for m in word_mask.bool()]
        n = max(map(len, masks))
        tags = torch.full((len(masks), n, nt), -7., dtype=torch.double)
        spans = torch.full((len(masks), n * (n + 1) // 2, nc), 9.,
                           dtype=torch.double)
        for b, m in enumerate(masks):
            # the whole of the sentence, so that equal ones score the same
            ids = tuple(x for x in input_ids[b].tolist() if x)
            for i in range(len(m)):
                tags[b, i] = torch.tensor(self.table((ids, i), nt),
                                          dtype=torch.double)
            for i, j in all_spans(len(m)):
                spans[b, j * (j + 1) // 2 + j - i] = torch.tensor(
                    self.table((ids, i, j), nc), dtype=torch.double)
        return types.SimpleNamespace(tag_logits=tags, span_logits=spans)


def soft(x):
    m = max(x)
    z = m + math.log(sum(math.exp(v - m) for v in x))
    return [v - z for v in x]


def fam_stub(c):
    """Any scores a model may give."""
    tok = BOB[0][0].tagger.tokenizer
    m = Stub(c, c.choice([1, 2, 3, 6]), c.choice([1, 2, 3, 6]))
    o = options(c)
    t = Tagger(m, tok, **o)
    fresh(c)
    for turn in range(c.int(1, 2)):
        batch = [words_of(c) for _ in range(c.int(1, 4))]
        if sum(map(len, batch)) > 60:
            batch = [b[:8] for b in batch]
        if c.p(.2):
            batch.append(list(batch[0]))
        if any(not any(w.strip(''.join(ODD)) for w in b) for b in batch):
            c.skip()        # nothing to tag
        c.note(batch=batch, options=o)
        c.sig(o, tuple(map(len, batch)), turn)
        out = call(c, t, batch, o)
        if turn:
            c.ev('repeated')
        for words, s in zip(batch, out.sentences):
            ids = tuple(tok(words, is_split_into_words=True,
                            truncation=True)['input_ids'])
            n = len({w for w in tok(words, is_split_into_words=True,
                                    truncation=True).word_ids()
                     if w is not None})
            judge(c, out, s, words,
                  [soft(m.memo[ids, i]) for i in range(n)],
                  {(i, j): soft(m.memo[ids, i, j])
                   for i, j in all_spans(n)}, o)
        c.ev('stub')
        forms(c, out)


def fam_handed_over(c):
    """The parser is given what the tagger found, under the options that were
    asked for."""
    _, path = BOB[0 if c.p(.5) else 1]
    o = {k: v for k, v in options(c).items() if c.p(.6)}
    chart = {'eisner_normal_form': c.p(.5),
             'max_parse_trees': c.choice([10, 1000]),
             'beam_size': c.choice([1, 4]),
             'input_tag_score_weight': c.choice([1, .5]),
             'missing_cat_score': c.choice([0, .1, .001]),
             'missing_span_score': c.choice([0, .1, .001])}
    chart = {k: v for k, v in chart.items() if c.p(.5)}
    c.note(options=o, chart=chart)
    if c.p(.15):
        bad = c.choice([
            {'batch_size': 0}, {'batch_size': 1.5}, {'tag_top_k': -1},
            {'tag_top_k': .5}, {'span_top_k': -2},
            {'tag_prob_threshold': 1.1}, {'tag_prob_threshold': -.1},
            {'span_prob_threshold': 2}, {'span_prob_threshold': -1e-9},
            {'tag_prob_threshold_strategy': 'rel'},
            {'span_prob_threshold_strategy': ''}, {'top_k': 3},
            {'beam': 3}])
        try:
            BobcatParser(path, verbose='suppress', **{**o, **chart, **bad})
        except (TypeError, ValueError):
            c.ev('bad_option')
            c.sig(bad, o)
            return
        c.check(False, 'nonsense-accepted', bad)
    roots = c.choice([None, ['S'], ['NP', 'S'], ['N']])
    p = BobcatParser(path, verbose='suppress', root_cats=roots, **o, **chart)
    p.tagger.model.double()
    c.ev('options')
    whole = {'batch_size': 1, 'tag_top_k': 0, 'tag_prob_threshold': 0,
             'tag_prob_threshold_strategy': 'relative', 'span_top_k': 0,
             'span_prob_threshold': 0,
             'span_prob_threshold_strategy': 'relative', **o}
    for k, v in whole.items():
        c.eq(getattr(p.tagger, k), v, 'option-lost', k)
    whole_chart = {'eisner_normal_form': True, 'max_parse_trees': 100000,
                   'beam_size': 8, 'input_tag_score_weight': 1,
                   'missing_cat_score': -5, 'missing_span_score': -5,
                   **chart}
    batch = [words_of(c) for _ in range(c.int(1, 3))]
    batch = [b for b in batch if 0 < len(b) < 6 and all(map(str.strip, b))]
    if not batch:
        c.skip()
    c.sig(whole, chart, tuple(map(len, batch)))
    seen = []
    real = p.parser

    def watch(sentence, *args, **kw):
        seen.append(copy.deepcopy(sentence))
        return real(sentence, *args, **kw)
    p.parser = watch
    c.note(batch=batch)
    trees = p.sentences2trees(batch, tokenised=True, suppress_exceptions=True)
    own = ChartParser(Grammar.load(os.path.join(path, 'grammar.json')),
                      p.tagger.model.config.cats, roots, **whole_chart)
    for s, t in zip(seen, [t for b, t in zip(batch, trees) if len(direct(
            p.tagger, b)[0]) == len(b)]):
        best = own(s)
        want = best[0] if len(best) else None
        c.eq(t and str(t.metadata['original']), want and str(want),
             'other-parse', str(s.words))
        c.ev('parsed', bool(want))
    cats, tags = p.tagger.model.config.cats, p.tagger.model.config.tags
    it = iter(seen)
    for words in batch:
        t, sp = direct(p.tagger, words)
        if len(t) < len(words):
            continue        # (not a sentence of as many tags as words)
        s = next(it, None)
        c.check(s is not None, 'not-parsed', words)
        c.eq(s.words, words, 'words')
        judge(c, None, types.SimpleNamespace(
            words=s.words,
            tags=[[(tags.index(x.category), x.probability)
                   for x in ts] for ts in s.input_supertags],
            spans=[(i, j, list(x.items()))
                   for (i, j), x in s.span_scores.items()]),
            words, t, sp, whole)
        c.ev('handed_over')
    c.check(next(it, None) is None, 'parsed-twice')


def fam_spans(c):
    """Spans and their numbers."""
    fresh(c)
    for _ in range(c.int(1, 6)):
        how = c.int(0, 2)
        if how == 0:
            i = c.choice([c.int(0, 20), c.int(0, 3000), c.int(0, 40000)])
            if c.p(.3):
                k = c.int(1, 90)
                i = max(0, k * (k + 1) // 2 + c.int(-1, 1))
            j, base = 0, 0
            while base + j + 1 <= i:
                base += j + 1
                j += 1
            c.eq(T.idx2span(i), (j - (i - base), j), 'span-index', str(i))
        elif how == 1:
            y = c.int(0, 90)
            x = c.int(0, y)
            i = y * (y + 1) // 2 + y - x
            c.eq(T.span2idx(x, y), i, 'index-of-span')
            c.eq(T.idx2span(i), (x, y), 'span-index')
        else:
            n = c.int(0, 60)
            got = T.get_chart_spans(n)
            c.eq(got, [(i, j) for j in range(n) for i in range(j, -1, -1)],
                 'chart-spans', str(n))
            got.append(None)        # (it is the caller's own)
        c.ev('spans')
        c.sig('span', how, len(T.SPAN_MEMO))


FAMILIES = [
    Family('stub', fam_stub, 1200),
    Family('weights', fam_weights, 400, 2500),
    Family('handed_over', fam_handed_over, 200, 1500),
    Family('spans', fam_spans, 100),
]
