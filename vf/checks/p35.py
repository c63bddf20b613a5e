"""P35 The command line gives the same result as the library call."""
import contextlib
import inspect
import io
import json
import os
import pathlib
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import warnings
import zlib
from unittest.mock import patch

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import yaml

import lambeq
import spacy
from lambeq import (AtomicType, BobcatParser, CCGTree, IQPAnsatz, MPSAnsatz,
                    OncillaParser, RemoveSwapsRewriter, Rewriter,
                    SpacyTokeniser, SpiderAnsatz, TensorAnsatz, TreeReader,
                    cups_reader, spiders_reader, stairs_reader)
from lambeq import cli
from lambeq.backend.tensor import Dim
from vf.ccg import A, Node, cx, from_ccg, is_cx
from vf.core import Family
from vf.sem import any_key

RULE = 'distinct argument combinations and inputs'
REQUIRED = ['input:arg', 'input:file', 'input:stdin', 'stdout', 'text_file',
            'pickle', 'json', 'folder', 'image_file', 'mode:ccg',
            'mode:pregroups', 'output_format:image', 'output_format:json',
            'output_format:pickle', 'output_format:text-ascii',
            'parser:bobcat', 'parser:oncilla', 'reader:cups', 'reader:tree',
            'reader:spiders', 'reader:stairs', 'ansatz:iqp', 'ansatz:mps',
            'ansatz:spider', 'ansatz:tensor', 'ansatz_options',
            'output_options', 'rewrite_rules', 'root_categories',
            'split_sentences', 'tokenise', 'stored', 'stored_mode', 'by_hand',
            'again', 'changed', 'changed:mode', 'overridden',
            'refused:unknown', 'refused:no output', 'refused:two inputs',
            'refused:two outputs', 'refused:not for ccg',
            'refused:text of circuit', 'process']

MODES = ['string-diagram', 'pregroups', 'ccg']
FORMATS = ['json', 'pickle', 'text-unicode', 'text-ascii', 'image']
IMAGES = ['png', 'png', 'png', 'pdf', 'jpg', 'jpeg', 'svg', 'eps', 'tiff',
          'raw', 'rgba', 'ps', 'tif']
ANSATZE = ['iqp', 'tensor', 'spider', 'mps']
OPTIONS = {'dim_n': 2, 'dim_s': 2, 'n_layers': 2, 'n_single_qubit_params': 3,
           'bond_dim': 3, 'max_order': 3}


# -- parsers that need no model -------------------------------------------
def build(words, cat, rng):
    """A derivation of any words."""
    n = len(words)
    if n == 1:
        if cat == A('n') and rng.random() < .3:
            return Node('U', cat, [Node('L', A('n'), word=words[0])])
        return Node('L', cat, word=words[0])
    k = rng.randint(1, n - 1)
    arg = A(rng.choice('nnnsp' if rng.random() < .1 else 'nnns'))
    if n >= 3 and rng.random() < .2 and not is_cx(cat) \
            and 0 < k < n - 1:
        right = Node('CONJ', cx('\\', cat, cat), [
            Node('L', A('conj'), word=words[k]),
            build(words[k + 1:], cat, rng)])
        return Node('BA', cat, [build(words[:k], cat, rng), right])
    if is_cx(cat) and cat[0] == '/' and rng.random() < .6:
        mid = A('n')
        return Node('BX', cat, [build(words[:k], cx('/', mid, cat[2]), rng),
                                build(words[k:], cx('\\', cat[1], mid), rng)])
    if rng.random() < .5:
        return Node('FA', cat, [build(words[:k], cx('/', cat, arg), rng),
                                build(words[k:], arg, rng)])
    return Node('BA', cat, [build(words[:k], arg, rng),
                            build(words[k:], cx('\\', cat, arg), rng)])


def tree_of(words, root_cats):
    seed = zlib.crc32('\0'.join(words).encode())
    names = {'S': 's', 'NP': 'n', 'N': 'n', 'PP': 'p'}
    cats = [names[x] for x in root_cats or ['S', 'NP'] if x in names]
    if not words or not cats:
        raise ValueError(f'cannot parse {words}')
    # the best of these is another one for every sentence
    return build(words, A(cats[seed % len(cats)]), random.Random(seed)).tree()


def replace_parsers(patches):
    """Bobcat and Oncilla with everything but their networks."""
    b_sig = inspect.signature(BobcatParser.__init__)
    o_sig = inspect.signature(OncillaParser.__init__)

    def b_init(self, *args, **kwargs):
        bound = b_sig.bind(self, *args, **kwargs).arguments
        self.roots = bound.get('root_cats')
        self.verbose = 'suppress'

    def trees(self, sentences, tokenised=False, suppress_exceptions=False,
              verbose=None):
        sents, empty = self.validate_sentence_batch(
            sentences, tokenised=tokenised,
            suppress_exceptions=suppress_exceptions)
        assert not empty
        return [tree_of(s, self.roots) for s in sents]

    def o_init(self, *args, **kwargs):
        o_sig.bind(self, *args, **kwargs)

    def diagrams(self, sentences, tokenised=False, suppress_exceptions=False,
                 verbose=None):
        sents, empty = self.validate_sentence_batch(
            sentences, tokenised=tokenised,
            suppress_exceptions=suppress_exceptions)
        assert not empty
        # not what Bobcat makes of it
        return [tree_of(s + ['?'], ['S']).to_diagram() for s in sents]

    for cls, name, fn in ((BobcatParser, '__init__', b_init),
                          (BobcatParser, 'sentences2trees', trees),
                          (OncillaParser, '__init__', o_init),
                          (OncillaParser, 'sentences2diagrams', diagrams)):
        patches.enter_context(patch.object(cls, name, fn))
    patches.enter_context(patch.object(
        spacy, 'load', lambda *a, **k: spacy.blank('en')))


def worker_setup():
    warnings.simplefilter('ignore')
    # equal pictures are equal files
    os.environ['SOURCE_DATE_EPOCH'] = '0'
    matplotlib.rcParams['svg.hashsalt'] = 'vf'
    matplotlib.rcParams['figure.max_open_warning'] = 0
    replace_parsers(contextlib.ExitStack())


# -- what the arguments mean -----------------------------------------------
def invalid(cfg):
    """Why the arguments make no sense together."""
    g = cfg.get
    mode = g('mode') or MODES[0]
    fmt = g('output_format') or 'text-unicode'
    text = fmt in ('text-unicode', 'text-ascii')
    if g('input_sentence') and g('input_file') is not None:
        return 'two inputs'
    if g('output_file') and g('output_dir'):
        return 'two outputs'
    if not g('output_file') and not g('output_dir') and not text:
        return 'no output'
    if g('parser') and g('reader'):
        return 'parser and reader'
    if g('output_options') and fmt != 'image':
        return 'image options'
    if g('output_dir') and fmt != 'image':
        return 'folder for text'
    if mode == 'ccg':
        if g('ansatz') or g('reader') or g('rewrite_rules') is not None:
            return 'not for ccg'
        if fmt == 'image':
            return 'ccg image'
        if g('parser') not in (None, 'bobcat'):
            return 'ccg parser'
    else:
        if text or fmt == 'json':
            if g('ansatz'):
                return 'text of circuit'
            if g('rewrite_rules') is not None:
                return 'text of rewritten'
            if g('reader') in ('spiders', 'stairs', 'tree'):
                return 'text of reader'
        if fmt == 'json':
            return 'json of diagrams'


class Refused(Exception):
    pass


def library(cfg, text):
    """What the library gives for these arguments."""
    g = cfg.get
    mode = g('mode') or MODES[0]
    fmt = g('output_format') or 'text-unicode'
    tok = bool(g('tokenise'))
    sents = (SpacyTokeniser().split_sentences(text) if g('split_sentences')
             else text.split('\n'))
    if tok:
        sents = SpacyTokeniser().tokenise_sentences(sents)
    if g('reader'):
        r = {'cups': cups_reader, 'stairs': stairs_reader,
             'spiders': spiders_reader}.get(g('reader')) or TreeReader()
        out = r.sentences2diagrams(sents, tokenised=tok)
    else:
        p = (OncillaParser() if g('parser') == 'oncilla' else
             BobcatParser(root_cats=g('root_categories')))
        if mode == 'ccg':
            out = [t.without_trivial_unary_rules()
                   for t in p.sentences2trees(sents, tokenised=tok)]
        else:
            out = p.sentences2diagrams(sents, tokenised=tok)
            if mode == 'pregroups':
                out = [RemoveSwapsRewriter()(d.pregroup_normal_form())
                       for d in out]
    if g('rewrite_rules') is not None:
        rw = Rewriter(g('rewrite_rules'))
        out = [rw(d).normal_form() for d in out]
    if g('ansatz'):
        o = {**OPTIONS, **(g('ansatz_options') or {})}
        n, s = AtomicType.NOUN, AtomicType.SENTENCE
        dims = {n: Dim(o['dim_n']), s: Dim(o['dim_s'])}
        a = {'iqp': lambda: IQPAnsatz({n: o['dim_n'], s: o['dim_s']},
                                      n_layers=o['n_layers'],
                                      n_single_qubit_params=o[
                                          'n_single_qubit_params']),
             'tensor': lambda: TensorAnsatz(dims),
             'spider': lambda: SpiderAnsatz(dims, max_order=o['max_order']),
             'mps': lambda: MPSAnsatz(dims, bond_dim=o['bond_dim'],
                                      max_order=o['max_order']),
             }[g('ansatz')]()
        out = [a(d) for d in out]
    if fmt in ('text-unicode', 'text-ascii'):
        asc = fmt == 'text-ascii'
        if mode == 'ccg':
            return '\n'.join(t.deriv(use_ascii=asc) for t in out)
        return '\n'.join((d if d.is_pregroup else d.pregroup_normal_form())
                         .render_as_str(use_ascii=asc) for d in out)
    if fmt == 'image' and not g('output_dir') and len(out) > 1:
        raise Refused('several images for one file')
    return out


def outputs(cfg, want, tmp):
    """The files the library would write, by name."""
    g = cfg.get
    fmt = g('output_format') or 'text-unicode'
    if fmt != 'image':
        return
    kind = g('image_format') or 'png'
    if g('output_dir'):
        width = len(str(len(want)))
        names = [f'{g("output_dir")}/diagram_{i + 1:0{width}}.{kind}'
                 for i in range(len(want))]
    else:
        name = g('output_file')
        names = [name if '.' in name else f'{name}.{kind}']
    opts = g('output_options') or {}
    kw = {}
    if 'fig_width' in opts:
        kw['figsize'] = opts['fig_width'], opts['fig_height']
    if 'fontsize' in opts:
        kw['fontsize'] = opts['fontsize']
    res = {}
    for name, d in zip(names, want):
        try:
            d = d.normal_form()
        except (ValueError, NotImplementedError):
            pass
        path = tmp / f'picture.{name.split(".")[-1]}'
        d.draw(path=str(path), **kw)
        res[name] = path.read_bytes()
        path.unlink()
        plt.close('all')
    return res


def untitled(data):
    """PostScript mentions the name of its file."""
    return re.sub(rb'%%Title: .*', b'', data)


SHORT = {'mode': '-m', 'input_file': '-i', 'output_format': '-f',
         'image_format': '-g', 'output_options': '-u', 'output_file': '-o',
         'output_dir': '-d', 'parser': '-p', 'tokenise': '-t',
         'split_sentences': '-s', 'reader': '-r', 'root_categories': '-c',
         'rewrite_rules': '-w', 'ansatz': '-a', 'ansatz_options': '-n',
         'store_args': '-y', 'load_args': '-l'}


def argv(c, cfg):
    parts = []
    for k, v in cfg.items():
        if k == 'input_sentence' or v is None or v is False:
            continue
        flag = SHORT[k] if c.p(.6) else '--' + k
        if v is True:
            parts.append([flag])
        elif isinstance(v, dict):
            if v:
                parts.append([flag] + [f'{a}={b}' for a, b in v.items()])
        elif isinstance(v, list):
            parts.append([flag] + v)
        elif c.p(.1) and flag.startswith('--'):
            parts.append([f'{flag}={v}'])
        else:
            parts.append([flag, str(v)])
    c.rng.shuffle(parts)
    args = sum(parts, [])
    s = cfg.get('input_sentence')
    if s:
        if c.p(.5):
            args = [s] + args
        else:
            args = args + ['--', s]
    return args


class Ran:
    pass


def listing(tmp):
    return {str(p.relative_to(tmp)): p.read_bytes()
            for p in tmp.rglob('*') if p.is_file()}


def run(c, args, tmp, stdin=''):
    """Run the command line in a folder of its own."""
    r = Ran()
    before = listing(tmp)
    out, err = io.StringIO(), io.StringIO()
    here = os.getcwd()
    c.note(args=args)
    try:
        os.chdir(tmp)
        with patch.object(sys, 'argv', ['lambeq'] + args), \
                patch.object(sys, 'stdin', io.StringIO(stdin)), \
                contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                cli.main()
                r.error = None
            except SystemExit as e:
                r.error = e if e.code else None
            except Exception as e:
                r.error = e
    finally:
        os.chdir(here)
        plt.close('all')
    r.stdout, r.stderr = out.getvalue(), err.getvalue()
    after = listing(tmp)
    r.files = {k: v for k, v in after.items() if before.get(k) != v}
    r.gone = set(before) - set(after)
    return r


def objects(c, data, want):
    got = pickle.loads(data)
    c.eq(type(got), list, 'pickle')
    c.eq(len(got), len(want), 'sentence-count')
    for i, (a, b) in enumerate(zip(got, want)):
        c.eq(type(a), type(b), 'object-type')
        if isinstance(a, CCGTree):
            c.eq(a.to_json(), b.to_json(), 'wrong-result', f'sentence {i}')
        else:
            c.eq(any_key(a), any_key(b), 'wrong-result', f'sentence {i}')


def judge(c, cfg, r, text, tmp, prompt=False, ignore=()):
    """The run did what the arguments ask for."""
    g = cfg.get
    why = invalid(cfg)
    files = {k: v for k, v in r.files.items() if k not in ignore}
    if why:
        c.check(r.error is not None, 'nonsense-accepted', why)
        c.eq(files, {}, 'refused-but-written', why)
        c.eq(r.stdout.replace('Text: ', ''), '', 'refused-but-printed', why)
        c.ev('refused:' + why)
        return False
    try:
        want = library(cfg, text)
        if not isinstance(want, str):
            pics = outputs(cfg, want, tmp)
    except Exception as e:
        c.check(r.error is not None, 'library-fails-cli-not',
                f'{type(e).__name__}: {e}')
        # (the pictures before one that cannot be drawn are there)
        c.check(not files or g('output_dir') and all(
            re.match(r'.*/diagram_\d+\.', k) for k in files),
            'failed-but-written', lambda: str(sorted(files)))
        c.ev('fails:' + type(e).__name__)
        return False
    c.check(r.error is None, 'cli-fails',
            lambda: f'{type(r.error).__name__}: {r.error}\n{r.stderr}')
    fmt = g('output_format') or 'text-unicode'
    mode = g('mode') or MODES[0]
    lead = 'Text: ' if prompt else ''
    c.eq(r.gone, set(), 'files-removed')
    if fmt.startswith('text') and not g('output_file'):
        c.eq(r.stdout, lead + want + '\n', 'wrong-text')
        c.eq(files, {}, 'unexpected-files')
        c.ev('stdout')
        return True
    c.eq(r.stdout, lead, 'unexpected-output')
    if fmt == 'image':
        c.eq(sorted(files), sorted(pics), 'image-names')
        for k in pics:
            c.check(untitled(files[k]) == untitled(pics[k]),
                    'wrong-picture', k)
            c.ev('image:' + k.split('.')[-1])
        c.ev('folder' if g('output_dir') else 'image_file')
        return True
    c.eq(list(files), [g('output_file')], 'unexpected-files')
    data = files[g('output_file')]
    if fmt == 'pickle':
        objects(c, data, want)
        c.ev('pickle')
    elif fmt == 'json':
        got = json.loads(data)
        c.eq(got, json.loads(json.dumps([t.to_json() for t in want])),
             'wrong-result')
        for a, b in zip(got, want):
            c.eq(CCGTree.from_json(a).to_json(), b.to_json(), 'json-differs')
        c.ev('json')
    else:
        c.eq(data.decode(), want, 'wrong-text')
        c.ev('text_file')
    return True


# -- workloads ---------------------------------------------------------------
WORDS = ['Alice', 'Bob', 'loves', 'Claire', 'and', 'runs', 'the', 'dog', 'a',
         'that', 'quickly', 'é', 'of', 'which', 'does', 'not']


def sentence(c, tokenise):
    ws = [c.choice(WORDS) for _ in range(c.int(1, 5))]
    if tokenise and c.p(.7):
        # there is something to do
        ws[-1] += c.choice(['.', '!', "'s", ',', ';', '...'])
        if c.p(.3):
            ws[0] = "don't"
    sep = '  ' if tokenise and c.p(.2) else ' '
    return sep.join(ws)


def rand_text(c, cfg, many=True):
    n = c.int(1, 3) if many else 1
    if many and c.p(.05):
        # as many as need another digit
        n = c.choice([9, 10, 10, 11])
    sents = [sentence(c, cfg.get('tokenise')) for _ in range(n)]
    if n > 1 and c.p(.05):
        sents.insert(c.int(1, n - 1), '')
    if cfg.get('split_sentences') and c.p(.8):
        return ' '.join(s.rstrip('.!;,') + '.' for s in sents)
    return '\n'.join(sents)


def ansatz_options(c):
    return {k: c.choice({'dim_n': [0, 1, 2], 'dim_s': [0, 1, 2],
                         'n_layers': [0, 1, 2],
                         'n_single_qubit_params': [0, 1, 2, 3]}.get(
                             k, [0, 1, 2, 3] if c.p(.3) else [1, 2, 3]))
            for k in OPTIONS if c.p(.4)}


def rand_config(c):
    """Arguments that make sense, but for input and places of output."""
    cfg = {}
    mode = c.choice(MODES)
    if mode != MODES[0] or c.p(.3):
        cfg['mode'] = mode
    fmt = c.choice(['text-unicode', 'text-unicode', 'text-ascii', 'pickle',
                    'pickle', 'json' if mode == 'ccg' else 'image'])
    if fmt != 'text-unicode' or c.p(.4):
        cfg['output_format'] = fmt
    text = fmt.startswith('text')
    if c.p(.4):
        cfg['tokenise'] = True
    if c.p(.3):
        cfg['split_sentences'] = True
    if mode == MODES[0] and c.p(.5):
        cfg['reader'] = ('cups' if text else
                         c.choice(['cups', 'stairs', 'spiders', 'tree']))
    elif c.p(.5):
        cfg['parser'] = ('bobcat' if mode == 'ccg' else
                         c.choice(['bobcat', 'oncilla']))
    if 'reader' not in cfg and c.p(.4):
        cfg['root_categories'] = c.choice([['S'], ['NP'], ['N', 'S'],
                                           ['NP', 'S', 'N']])
    if mode != 'ccg' and not text:
        if c.p(.4):
            cfg['rewrite_rules'] = c.rng.sample(
                Rewriter.available_rules(), c.int(0, 3))
        # (drawing large circuits takes long)
        if c.p(.15 if fmt == 'image' else .6):
            cfg['ansatz'] = c.choice(ANSATZE)
            if c.p(.7):
                cfg['ansatz_options'] = ansatz_options(c)
    return cfg


def add_places(c, cfg, tmp):
    """Where the input is and the output goes."""
    fmt = cfg.get('output_format') or 'text-unicode'
    many = True
    if fmt == 'image':
        kind = c.choice(IMAGES)
        how = c.int(0, 2)
        if c.p(.5):
            cfg['output_dir'] = c.choice(['pics', 'a/b'])
            if kind != 'png' or c.p(.5):
                cfg['image_format'] = kind
        else:
            cfg['output_file'] = 'pic' + ('' if how == 0 else '.' + kind)
            if how != 1 and (kind != 'png' or c.p(.5)):
                cfg['image_format'] = kind
            many = c.p(.2)
        opts = {}
        if c.p(.3) and not many:
            opts = {'fig_width': c.int(3, 6), 'fig_height': c.int(2, 5)}
        if c.p(.3):
            opts['fontsize'] = c.choice([7, 12])
        if opts:
            cfg['output_options'] = opts
    elif not fmt.startswith('text') or c.p(.4):
        cfg['output_file'] = 'out.x'
    text = rand_text(c, cfg, many)
    if fmt == 'image' and cfg.get('ansatz'):
        text = ' '.join(text.split()[:3])       # (large circuits take long)
    if 'fig_width' in cfg.get('output_options', {}):
        text = text.replace('\n', ' ')
        cfg['split_sentences'] = False
    stdin = ''
    how = c.choice(['arg', 'arg', 'file', 'file', 'stdin'])
    if how == 'stdin' and '\n' in text:
        how = 'file'
    if how == 'arg':
        cfg['input_sentence'] = text
    elif how == 'file':
        cfg['input_file'] = 'in.txt'
        (tmp / 'in.txt').write_text(c.choice(['', ' ', '\n']) + text
                                    + c.choice(['', '\n', '\n\n', ' \n']))
    else:
        stdin = text + '\n'
    c.ev('input:' + how)
    return text, stdin


@contextlib.contextmanager
def folder():
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf-p35-'))
    (tmp / 'w').mkdir()
    try:
        yield tmp, tmp / 'w'
    finally:
        shutil.rmtree(tmp)


def events(c, cfg):
    for k, v in cfg.items():
        if v is True or isinstance(v, (list, dict)):
            c.ev(k)
        elif k in ('mode', 'output_format', 'reader', 'parser', 'ansatz'):
            c.ev(f'{k}:{v}')
    c.sig(sorted((k, str(v)) for k, v in cfg.items()))


def fam_run(c):
    with folder() as (tmp, work):
        cfg = rand_config(c)
        text, stdin = add_places(c, cfg, work)
        c.note(text=text)
        r = run(c, argv(c, cfg), work, stdin)
        if judge(c, cfg, r, text, tmp, bool(stdin)):
            events(c, cfg)
            c.sample(f'{cfg} {text!r}')


def fam_pictures(c):
    """A folder with a picture of each sentence, in their order."""
    with folder() as (tmp, work):
        cfg = {'output_format': 'image', 'output_dir': c.choice(['p', 'a/b']),
               'reader': c.choice(['stairs', 'cups'])}
        kind = c.choice(['png', 'png', 'svg'])
        if kind != 'png':
            cfg['image_format'] = kind
        n = [10, 2, 9, 11, 1][c.index % 5]
        # (sentences that differ only in their place stay apart by a word)
        sents = [c.choice(WORDS) for _ in range(n)]
        if n > 2 and c.p(.3):
            sents.insert(c.int(1, n - 1), '')
        text = '\n'.join(sents)
        cfg['input_file'] = 'in.txt'
        (work / 'in.txt').write_text(text)
        c.note(text=text)
        r = run(c, argv(c, cfg), work, '')
        if judge(c, cfg, r, text, tmp, False):
            c.ev('ten' if n >= 10 else 'few')
            c.sig('pictures', n, kind, cfg['reader'])


def fam_refuse(c):
    with folder() as (tmp, work):
        cfg = rand_config(c)
        text, stdin = add_places(c, cfg, work)
        how = c.int(0, 12)
        if how == 0:
            cfg['input_sentence'], cfg['input_file'] = text, 'in.txt'
            (work / 'in.txt').write_text(text)
        elif how == 1:
            cfg['output_file'], cfg['output_dir'] = 'x', 'y'
        elif how == 2:
            cfg['output_format'] = c.choice(['pickle', 'json', 'image'])
            cfg.pop('output_file', 0), cfg.pop('output_dir', 0)
        elif how == 3:
            cfg['parser'] = c.choice(['bobcat', 'oncilla'])
            cfg['reader'] = c.choice(['cups', 'tree'])
        elif how == 4:
            cfg['output_format'] = c.choice(['pickle', 'json', 'text-ascii',
                                             None])
            cfg['output_options'] = c.choice([{'fontsize': 3},
                                              {'fig_width': 3}])
        elif how == 5:
            cfg['output_format'] = c.choice(['pickle', 'json', 'text-ascii',
                                             None])
            cfg['output_dir'] = 'dir'
            cfg.pop('output_file', 0)
        elif how == 6:
            cfg['mode'] = 'ccg'
            k = c.int(0, 4)
            if k == 0:
                cfg['ansatz'] = c.choice(ANSATZE)
            elif k == 1:
                cfg['reader'] = 'cups'
            elif k == 2:
                cfg['rewrite_rules'] = ['determiner']
            elif k == 3:
                cfg['output_format'] = 'image'
                cfg['output_file'] = 'x'
            else:
                cfg['parser'] = 'oncilla'
        elif how == 7:
            cfg['mode'] = c.choice(MODES[:2])
            cfg['output_format'] = c.choice(['text-unicode', 'text-ascii',
                                             None])
            k = c.int(0, 2)
            if k == 0:
                cfg['ansatz'] = c.choice(ANSATZE)
            elif k == 1:
                cfg['rewrite_rules'] = ['determiner']
            else:
                cfg['reader'] = c.choice(['spiders', 'stairs', 'tree'])
        elif how == 8:
            cfg['mode'] = c.choice(MODES[:2])
            cfg['output_format'] = 'json'
            cfg['output_file'] = 'x'
        else:
            # nothing the parser knows
            bad = c.choice([['-m', 'x'], ['-f', 'text'], ['-g', 'gif'],
                            ['-p', 'depccg'], ['-r', 'none'],
                            ['-w', 'nonsense'], ['-a', 'x'],
                            ['-n', 'dim_x=3'], ['-n', 'dim_n=a'],
                            ['-n', 'dim_n'], ['-u', 'fontsize=big'],
                            ['-u', 'colour=3'], ['--what', '3'],
                            ['-n', 'dim_n=1=2'],
                            ['-i', 'missing.txt'], ['-l', 'missing.yaml']])
            # does not conflict with anything else
            for k in ([k for k, v in SHORT.items() if v == bad[0]]
                      + ['input_sentence', 'input_file'] * (bad[0] == '-i')):
                cfg.pop(k, 0)
            r = run(c, argv(c, {k: v for k, v in cfg.items()
                                if k != 'input_sentence'}) + bad, work,
                    stdin or text + '\n')
            c.check(r.error is not None, 'nonsense-accepted', bad)
            c.eq(r.files, {}, 'refused-but-written')
            c.eq(r.stdout, '', 'refused-but-printed')
            c.ev('refused:unknown')
            c.sig(bad, cfg)
            return
        store = c.p(.2)
        if store:
            cfg['store_args'] = 'conf.yaml'
        if not invalid(cfg):
            c.skip()
        if cfg.get('output_format') == 'json' and store:
            cfg.pop('store_args')   # (only found out at the end)
        r = run(c, argv(c, cfg), work, stdin)
        judge(c, cfg, r, text, tmp, bool(stdin))
        c.sig(cfg)


def fam_stored(c):
    """Stored arguments give the same again, or what is said instead."""
    with folder() as (tmp, work):
        cfg = rand_config(c)
        text, stdin = add_places(c, cfg, work)
        c.note(text=text)
        if c.p(.3):
            # written by hand
            (work / 'conf.yaml').write_text(yaml.safe_dump(
                {k: v for k, v in cfg.items() if v is not None}))
            c.ev('by_hand')
        else:
            r = run(c, argv(c, {**cfg, 'store_args': 'conf.yaml'}), work,
                    stdin)
            ok = judge(c, cfg, r, text, tmp, bool(stdin), ['conf.yaml'])
            if invalid(cfg):
                return
            c.check('conf.yaml' in r.files, 'not-stored')
            for k in r.files:
                if k != 'conf.yaml':
                    (work / k).unlink()
            if not ok:
                c.skip()
            c.ev('stored')
        new = {}
        if c.p(.7):
            other = rand_config(c)
            keys = [k for k in other if other[k] not in ([], {})
                    and k not in ('split_sentences', )]
            if 'mode' not in other and c.p(.5):
                other['mode'] = MODES[0]
                keys.append('mode')
            new = {k: other[k] for k in keys if c.p(.6)}
            if cfg.get('input_sentence') and c.p(.5):
                text = new['input_sentence'] = rand_text(
                    c, {**cfg, **new}, False)
            if cfg.get('input_file') and c.p(.5):
                text = rand_text(c, {**cfg, **new}, False)
                (work / 'in2.txt').write_text(text)
                new['input_file'] = 'in2.txt'
            if cfg.get('output_file') and c.p(.5):
                new['output_file'] = 'new'
        both = {**cfg, **new}
        fmt = both.get('output_format')
        if fmt == 'image' and both.get('output_file') == 'out.x':
            c.skip()        # (what becomes of other extensions is open)
        if cfg.get('reader') and both.get('mode') == 'pregroups':
            c.skip()
        if new:
            c.ev('changed')
            if 'mode' in new:
                c.ev('changed:mode')
        if fmt == 'image' and both.get('ansatz') and len(text.split()) > 3:
            c.skip()
        c.note(stored=cfg, new=new)
        r = run(c, argv(c, {**new, 'load_args': 'conf.yaml'}), work, stdin)
        if judge(c, both, r, text, tmp, bool(stdin)):
            c.ev('again')
            for k in new:
                if k in cfg and cfg[k] != new[k]:
                    c.ev('overridden')
            if 'mode' in cfg and cfg['mode'] != MODES[0] \
                    and 'mode' not in new:
                c.ev('stored_mode')
        c.sig(cfg, new)


def fam_process(c):
    """The program itself, with what needs no model."""
    with folder() as (tmp, work):
        reader = c.choice(['cups', 'stairs', 'spiders'])
        cfg = {'reader': reader, 'output_format': 'pickle',
               'output_file': 'out'}
        if reader == 'cups' and c.p(.6):
            cfg['output_format'] = c.choice(['text-unicode', 'text-ascii'])
            if c.p(.5):
                cfg.pop('output_file')
        bad = c.p(.3)
        if bad:
            cfg['parser'] = 'bobcat'
        text, stdin = rand_text(c, cfg, True), ''
        if c.p(.5):
            (work / 'in.txt').write_text(text)
            cfg['input_file'] = 'in.txt'
        else:
            cfg['input_sentence'] = text
        args = argv(c, cfg)
        c.note(args=args)
        p = subprocess.run(
            [sys.executable, '-c', 'from lambeq.cli import main; main()']
            + args, cwd=work, capture_output=True, text=True,
            env={**os.environ, 'PYTHONIOENCODING': 'utf-8',
                 'PYTHONPATH': os.pathsep.join(
                     [os.path.dirname(os.path.dirname(lambeq.__file__))]
                     + os.environ.get('PYTHONPATH', '').split(os.pathsep))})
        r = Ran()
        r.error = p.returncode or None
        r.stdout, r.stderr = p.stdout, p.stderr
        r.files = {k: v for k, v in listing(work).items() if k != 'in.txt'}
        r.gone = set()
        judge(c, cfg, r, text, tmp)
        c.ev('process_refused' if bad else 'process')
        c.sig('process', cfg)


FAMILIES = [
    Family('run', fam_run, 250, 2000),
    Family('pictures', fam_pictures, 20, 100),
    Family('refuse', fam_refuse, 250),
    Family('stored', fam_stored, 250, 2000),
    Family('process', fam_process, 4, 40),
]
