"""P40 tokenising and splitting into sentences."""
import contextlib
import logging
import random
from unittest.mock import patch

import spacy
import spacy.cli
import spacy.lang.en

from lambeq import SpacyTokeniser
from lambeq.core.utils import get_spacy_tokeniser

from vf.core import Family

RULE = 'distinct texts or sentences with more than one token'
REQUIRED = ['sentences', 'tokens', 'spaces', 'unicode_space', 'clitic',
            'abbreviation', 'unicode', 'blank', 'no_terminator', 'messy',
            'generator', 'tuple', 'duplicates', 'empty_batch', 'one',
            'many_sentences', 'repeated', 'loaded', 'downloaded',
            'download_failed', 'other_model', 'disabled_pipe']
WORKERS = 8
LIMIT = 60
REF = None          # our own instance of spaCy's English
TOK = None          # one tokeniser for the whole run: any state shows

WORDS = ['Alice', 'loves', 'Bob', 'the', 'cat', 'ran', 'hi', 'x', 'I', 'naïve',
         'été', '東京', 'ﬁn', 'Ωμ', 'e\u0301', '10', '3.14', '1,000', 'A4']
CLITICS = ["don't", "can't", "Mary's", "we've", "I'll", 'cannot', 'gonna',
           "o'clock", "'tis", 'he\u2019s']
ABBREV = ['U.S.', 'e.g.', 'Dr.', 'a.m.', 'Inc.', 'St.']
PUNCT = [',', ';', '(a)', '"b"', '-', 'state-of-the-art', '...', '$5', '50%',
         'a/b', 'x@y.org', 'http://a.b/c?d=e', ':)', '#tag', '&', '[1]', '--']
SPACES = [' ', ' ', ' ', '  ', '\t', ' \t ', '\n', '\r\n', '   ']
UNI = ['\u00a0', '\u2003', '\u3000', '\x0b', '\u2028']


def worker_setup():
    global REF, TOK
    logging.disable(logging.CRITICAL)
    REF = spacy.lang.en.English()
    REF.add_pipe('sentencizer')
    with fake_load():
        TOK = SpacyTokeniser()


@contextlib.contextmanager
def fake_load():
    """No model of spaCy is installed: its tokeniser is the same."""
    with patch.object(spacy, 'load', lambda *a, **k: spacy.blank('en')):
        yield


def solid(s):
    """Its characters but white space, with our own idea of white space."""
    return ''.join(ch for ch in s if not ch.isspace())


def word(c):
    k = c.int(0, 9)
    if k < 6:
        w = c.choice(WORDS)
        if not w.isascii():
            c.ev('unicode')
        return w
    if k < 7:
        c.ev('clitic')
        return c.choice(CLITICS)
    if k < 8:
        c.ev('abbreviation')
        return c.choice(ABBREV)
    return c.choice(PUNCT)


def space(c):
    s = c.choice(SPACES)
    if c.p(.04):
        c.ev('unicode_space')
        s = c.choice(UNI) * c.int(1, 2)
    if s != ' ':
        c.ev('spaces')
    return s


def rand_sentence(c):
    n = c.choice([0, 1, 1, 2, 3, 4, 6, 9])
    out = ''
    if c.p(.2):
        out += space(c)
    for i in range(n):
        out += (space(c) if i else '') + word(c)
    if c.p(.5):
        out += c.choice(['.', '!', '?', ' .', '?!', '."', ',', '…'])
    if c.p(.2):
        out += space(c)
    if not out.strip():
        c.ev('blank')
    return out


def expected(s):
    """Tokens of a sentence, from spaCy alone."""
    return [t.text for t in REF.tokenizer(' '.join(s.split()))]


def judge_tokens(c, s, tokens):
    c.check(type(tokens) is list and all(type(t) is str for t in tokens),
            'token-type', repr(tokens))
    c.eq(''.join(map(solid, tokens)), solid(s), 'token-characters', repr(s))
    c.check(all(t and not any(ch.isspace() for ch in t) for t in tokens),
            'token-space', f'{s!r} {tokens!r}')
    c.eq(tokens, expected(s), 'tokens', repr(s))
    # what is separated by white space is separated in the tokens
    i, words = 0, s.split()
    for w in words:
        got = ''
        while len(got) < len(w) and i < len(tokens):
            got += tokens[i]
            i += 1
        c.eq(got, w, 'token-across-words', f'{s!r} {tokens!r}')


def fam_tokens(c):
    n = c.choice([0, 1, 1, 2, 3, 5, 8])
    sents = [rand_sentence(c) for _ in range(n)]
    if n > 1 and c.p(.3):
        sents[c.int(1, n - 1)] = sents[0]
        c.ev('duplicates')
    c.note(sents=sents)
    given = list(sents)
    form = c.choice(['list', 'list', 'tuple', 'generator', 'dict'])
    arg = {'list': given, 'tuple': tuple(given),
           'generator': (s for s in given),
           'dict': dict.fromkeys(given)}[form]
    if form == 'dict':
        sents = list(dict.fromkeys(given))
    c.ev(form)
    tok = TOK
    if c.p(.1):
        with fake_load():
            tok = SpacyTokeniser()
    out = tok.tokenise_sentences(arg)
    c.ev('tokens')
    if not sents:
        c.ev('empty_batch')
    c.eq(len(out), len(sents), 'number-of-sentences', repr(sents))
    for s, ts in zip(sents, out):
        judge_tokens(c, s, ts)
        if len(ts) > 1:
            c.sig(tuple(ts))
    c.eq(list(dict.fromkeys(given)), list(dict.fromkeys(sents)),
         'input-altered')
    for s in random.Random(c.index).sample(sents, min(2, len(sents))):
        c.ev('one')
        c.eq(tok.tokenise_sentence(s), expected(s), 'single', repr(s))
    for a in out:
        a.clear()                       # ours to alter
    if c.p(.3):
        c.ev('repeated')
        c.eq(tok.tokenise_sentences(sents), [expected(s) for s in sents],
             'repeated', repr(sents))
    if sents:
        c.sample(sents)


def fam_sentences(c):
    """Plain sentences come back as they are."""
    sents = []
    for _ in range(c.choice([1, 1, 2, 3, 5, 12])):
        ws = [c.choice(WORDS[:9] + CLITICS[:6]) for _ in range(c.int(0, 4))]
        # (an initial and its full stop are one token)
        ws.append(c.choice(['ran', 'cat', 'Alice', 'loves', 'Bob']))
        sents.append(' '.join(ws) + c.choice('.!?'))
    if c.p(.3):
        c.ev('no_terminator')
        sents[-1] = sents[-1][:-1]
    if len(sents) > 1:
        c.ev('many_sentences')
    text = ' '.join(sents)
    c.note(text=text)
    c.ev('sentences')
    got = TOK.split_sentences(text)
    c.eq(got, sents, 'sentences', repr(text))
    c.eq([TOK.tokenise_sentence(s) for s in got],
         [expected(s) for s in sents], 'split-and-tokenised', repr(text))
    c.sig(text)


def fam_messy(c):
    """Whatever the text, nothing is lost, in order, as spaCy splits it."""
    text = ''.join(rand_sentence(c) + c.choice(['', ' ', '\n', '  '])
                   for _ in range(c.int(0, 5)))
    c.note(text=text)
    c.ev('messy')
    got = TOK.split_sentences(text)
    c.check(type(got) is list and all(type(s) is str for s in got),
            'sentence-type', repr(got))
    c.eq(''.join(map(solid, got)), solid(text), 'sentence-characters',
         repr(text))
    at = 0
    for s in got:
        i = text.find(s, at)
        c.check(i >= 0 and not text[at:i].strip(), 'not-a-stretch',
                lambda: f'{s!r} of {text!r}')
        at = i + len(s)
    c.eq(got, [s.text for s in REF(text).sents], 'sentences-of-spacy',
         repr(text))
    if len(got) > 1:
        c.sig(text)


def fam_model(c):
    """The model is loaded, and downloaded just when it is not there."""
    name = c.choice([None, None, 'en_core_web_sm', 'en_core_web_lg', 'other'])
    if name not in (None, 'en_core_web_sm'):
        c.ev('other_model')
    missing = c.p(.6)
    broken = missing and c.p(.3)
    log = []
    model = spacy.blank('en')
    ran = []

    def load(m, *a, **k):
        log.append(('load', m))
        if missing and (broken or ('download', m) not in log):
            raise OSError(f'no {m}')
        return model

    def download(m, *a, **k):
        log.append(('download', m))
    want_name = name or 'en_core_web_sm'
    via = name is None and c.p(.5)
    c.note(name=name, missing=missing, broken=broken, via=via)
    with patch.object(spacy, 'load', load), \
            patch.object(spacy.cli, 'download', download):
        make = (SpacyTokeniser if via else
                lambda: get_spacy_tokeniser(*([name] if name else [])))
        if broken:
            c.ev('download_failed')
            c.raises(OSError, make, 'broken-model-accepted', str(log))
        else:
            got = make()
            c.ev('downloaded' if missing else 'loaded')
            if via:
                pipe = c.choice(['parser', 'tagger', 'ner', 'lemmatizer'])
                fac = f'vf_p40_{pipe}'
                spacy.Language.factory(fac, func=lambda nlp, name: (
                    lambda doc: ran.append(name) or doc))
                model.add_pipe(fac, name=pipe)
                s = rand_sentence(c)
                c.eq(got.tokenise_sentence(s), expected(s), 'tokens', repr(s))
                c.eq(ran, [], 'needless-pipe', pipe)
                c.ev('disabled_pipe')
            else:
                c.check(got is model, 'other-model', repr(got))
    want = ([('load', want_name)] if not missing else
            [('load', want_name), ('download', want_name),
             ('load', want_name)])
    c.eq(log, want, 'load-and-download')
    c.sig('model', name, missing, broken, via)


FAMILIES = [Family('tokens', fam_tokens, 1200, 12000),
            Family('sentences', fam_sentences, 800, 8000),
            Family('messy', fam_messy, 1200, 12000),
            Family('model', fam_model, 25, 100)]
