"""P26 A crash while saving never loses the previous checkpoint."""
import os
import pathlib
import pickle
import shutil
import tempfile

import numpy as np

from lambeq import (AtomicType, Checkpoint, Dataset, IQPAnsatz, NumpyModel,
                    QuantumTrainer, SPSAOptimizer, TensorAnsatz)
from lambeq.backend.grammar import Cup, Id, Word
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Dim
from vf import crash
from vf.core import Family

RULE = 'distinct (kind of interruption, point, sizes) tried'
REQUIRED = ['saved', 'loaded', 'overwritten', 'larger', 'smaller', 'emptied',
            'died', 'died_early', 'died_late', 'disk_full', 'killed_mid_write',
            'unpicklable', 'died_pickling', 'old_survived', 'new_complete',
            'saved_after', 'missing', 'no_directory', 'truncated', 'empty',
            'garbage', 'model_unchanged', 'trainer_unchanged', 'symlink',
            'pathlike', 'training_killed', 'reader', 'model_saved',
            'entries_kept', 'first_save']

N, S = AtomicType.NOUN, AtomicType.SENTENCE


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


class Bomb:
    """Fails or dies when pickled."""

    def __init__(self, how):
        self.how = how

    def __reduce__(self):
        if self.how == 'raise':
            raise ValueError('not picklable')
        os._exit(crash.DIED)


def sandbox(fn):
    """Run the case in a directory of its own."""
    def run(c):
        here = tempfile.mkdtemp(prefix='p26-')
        try:
            fn(c, pathlib.Path(here))
        finally:
            shutil.rmtree(here, ignore_errors=True)
    return run


def value(c, depth=0):
    k = c.choice(['int', 'str', 'arr', 'list', 'dict', 'sym', 'none',
                  'bytes', 'float', 'tuple', 'big'])
    if depth > 2 and k in ('list', 'dict', 'tuple'):
        k = 'int'
    if k == 'int':
        return c.int(-10 ** 9, 10 ** 9)
    if k == 'float':
        return c.choice([c.rng.uniform(-1, 1), float('inf'), 0.])
    if k == 'str':
        return ''.join(c.choice('abcé☃\n ') for _ in range(c.int(0, 30)))
    if k == 'bytes':
        return bytes(c.int(0, 255) for _ in range(c.int(0, 50)))
    if k == 'arr':
        return c.np.normal(size=(c.int(0, 5), c.int(1, 5)))
    if k == 'big':
        return c.np.normal(size=(c.choice([100, 1000, 20000]),))
    if k == 'sym':
        return [Symbol('w__n', 2, 3), Symbol('v', scale=2.)]
    if k == 'list':
        return [value(c, depth + 1) for _ in range(c.int(0, 4))]
    if k == 'tuple':
        return tuple(value(c, depth + 1) for _ in range(c.int(0, 3)))
    if k == 'dict':
        return {f'k{i}': value(c, depth + 1) for i in range(c.int(0, 4))}
    return None


def entries(c):
    out = {c.choice(['model_weights', 'epoch', 'a', 'b', 'ключ']) + str(i):
           value(c) for i in range(c.int(0, 6))}
    out['id'] = c.int(0, 10 ** 12)
    return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and a.dtype == b.dtype and np.array_equal(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def make(ent, style=0):
    ck = Checkpoint()
    if style:
        ck.add_many(ent)
    else:
        for k, v in ent.items():
            ck[k] = v
    return ck


def read(path):
    ck = Checkpoint.from_file(path)
    return {k: ck[k] for k in ck}


def where(c, here):
    path = here / c.choice(['model.lt', 'best model.lt', 'x', 'é.lt'])
    if c.p(.25):
        path = here / 'sub' / 'dir' / 'model.lt'
        path.parent.mkdir(parents=True)
    return path


@sandbox
def fam_roundtrip(c, here):
    path = where(c, here)
    other = here / 'other.txt'
    other.write_text('kept')
    target = path
    if c.p(.2):
        link = here / 'link.lt'
        link.symlink_to(path)
        target = link
        c.ev('symlink')
    history = []
    for i in range(c.int(1, 4)):
        ent = entries(c)
        ck = make(ent, c.int(0, 1))
        c.eq(len(ck), len(ent), 'len')
        c.check(all(same(ck[k], ent[k]) for k in ent), 'getitem')
        c.eq(sorted(ck), sorted(ent), 'iter')
        c.raises(KeyError, lambda: ck['absent'], mechanism='absent-key')
        how = c.choice([str, pathlib.Path, 'rel'])
        p = os.path.relpath(target) if how == 'rel' else how(target)
        c.ev('pathlike')
        size = path.stat().st_size if path.exists() else -1
        ck.to_file(p)
        c.ev('saved')
        if history:
            c.ev('overwritten')
            c.ev('larger' if path.stat().st_size > size else 'smaller')
        c.eq(len(ck), 0, 'emptied')
        c.ev('emptied')
        for q in (target, path):
            got = read(q)
            c.check(same(got, ent), 'contents', lambda: f'{got} != {ent}')
        c.ev('loaded')
        history.append(len(ent))
        again = Checkpoint.from_file(target)
        again['extra'] = 1
        c.check(same(read(path), ent), 'file-changed-by-loading')
    c.eq(other.read_text(), 'kept', 'other-file')
    c.note(history=history)
    c.sig('roundtrip', tuple(history), path.name)
    c.raises(FileNotFoundError,
             lambda: make({'a': 1}).to_file(here / 'no' / 'x.lt'),
             mechanism='no-directory')
    c.check(not (here / 'no').exists(), 'directory-made')
    c.ev('no_directory')


@sandbox
def fam_crash(c, here):
    """A history of saves, each of which may be interrupted."""
    path = where(c, here)
    have = None
    for i in range(c.int(2, 6)):
        ent = entries(c)
        if c.p(.3):
            ent['tail'] = c.np.normal(size=(c.int(1, 30000),))

        def save(p=path):
            make(ent).to_file(p)
        how = c.choice(['ok', 'die', 'die', 'die', 'full', 'kill',
                        'bomb', 'boom'])
        point = None
        if how == 'ok':
            save()
            end = 'ok'
        elif how == 'die':
            n = crash.count(lambda: save(here / 'trial.lt'))
            (here / 'trial.lt').unlink()
            point = c.choice([c.int(0, n - 1), c.int(max(0, n - 30), n - 1)])
            end = crash.forked(crash.dying_at(save, point))
            c.check(end in ('died', 'ok'), f'ended-{end}')
            c.ev('died')
            c.ev('died_early' if point < n / 2 else 'died_late')
        elif how in ('full', 'kill'):
            size = len(pickle.dumps(ent))
            point = c.choice([0, 1, size - 1, c.int(0, size),
                              c.int(0, size)])
            end = crash.forked(crash.with_room(save, point, how == 'kill'))
            c.check(end in ('killed', 'error', 'ok'), f'ended-{end}')
            c.ev('disk_full' if how == 'full' else 'killed_mid_write')
        elif how == 'bomb':
            bad = dict(ent)
            bad['bomb'] = Bomb('die')
            end = crash.forked(lambda: make(bad).to_file(path))
            c.eq(end, 'died', 'bomb-ended')
            c.ev('died_pickling')
        else:
            bad = dict(ent)
            bad['bomb'] = Bomb('raise')
            ck = make(bad)
            c.raises(ValueError, lambda: ck.to_file(path),
                     mechanism='unpicklable')
            end = 'error'
            c.ev('unpicklable')
            # what could not be saved is not lost from memory either
            c.check(all(same(ck[k], ent[k]) for k in ent), 'entries-kept')
            c.ev('entries_kept')
        c.sig(how, point, len(ent), have is None)
        c.note(**{f'step{i}': (how, point, end)})
        # what a reader finds now
        if not path.exists():
            c.check(have is None, f'{how}-lost',
                    lambda: f'no file after {how} at {point}')
            c.check(end != 'ok', f'{how}-not-written')
            c.ev('first_save')
            continue
        try:
            got = read(path)
        except Exception as e:
            c.check(have is None and end != 'ok', f'{how}-lost',
                    lambda: f'unreadable after {how} at {point}: {e!r}')
            c.ev('first_save')
            continue
        old = have is not None and same(got, have)
        new = same(got, ent)
        c.check(old or new, f'{how}-mixed', lambda: f'after {how}')
        if end == 'ok':
            c.check(new, 'completed-save-lost')
        if end in ('error',):
            c.check(old or have is None, 'failed-save-installed')
        c.ev('old_survived' if old and not new else 'new_complete')
        have = got
    ent = entries(c)
    make(ent).to_file(path)
    c.check(same(read(path), ent), 'saved-after')
    c.ev('saved_after')


@sandbox
def fam_sweep(c, here):
    """Every interruption point of one save over another."""
    path = here / 'model.lt'
    old, new = entries(c), entries(c)
    make(old).to_file(path)

    def save():
        make(new).to_file(path)
    n = crash.count(lambda: make(new).to_file(here / 'trial.lt'))
    size = len(pickle.dumps(new))
    step = max(1, n // 40)
    points = list(range(c.int(0, step - 1), n, step))
    points += list(range(max(0, n - 12), n))
    c.note(points=n, size=size)
    c.sig('sweep', n, size)
    for k in points:
        make(old).to_file(path)
        end = crash.forked(crash.dying_at(save, k))
        c.check(end in ('died', 'ok'), f'ended-{end}')
        try:
            got = read(path)
        except Exception as e:
            c.fail('die-lost', f'unreadable after dying at {k}/{n}: {e!r}')
        c.check(same(got, old) or same(got, new), 'die-mixed')
        c.ev('died')
        c.ev('old_survived' if same(got, old) else 'new_complete')
    for room in sorted({0, 1, size // 2, size - 1,
                        *(c.int(0, size) for _ in range(4))}):
        for kill in (False, True):
            make(old).to_file(path)
            crash.forked(crash.with_room(save, room, kill))
            got = read(path)
            c.check(same(got, old) or same(got, new), 'full-mixed')
            c.ev('killed_mid_write' if kill else 'disk_full')


def sentences():
    tv = N.r @ S @ N.l
    out = []
    for a, v, b in [('A', 'eats', 'B'), ('B', 'eats', 'C'),
                    ('C', 'sees', 'A')]:
        out.append(Word(a, N) @ Word(v, tv) @ Word(b, N)
                   >> Cup(N, N.r) @ Id(S) @ Cup(N.l, N))
    return out


def circuits():
    return [IQPAnsatz({N: 1, S: 1}, n_layers=1)(d) for d in sentences()]


def loss(y_hat, y):
    return float(np.mean((np.asarray(y_hat) - y) ** 2))


def trainer(model, log_dir, epochs, **kw):
    return QuantumTrainer(
        model, loss, epochs, SPSAOptimizer,
        {'a': .1, 'c': .1, 'A': 1.}, log_dir=str(log_dir),
        verbose='suppress', seed=3, **kw)


def data(c=None):
    cs = circuits()
    return Dataset(cs, [[1, 0], [0, 1], [1, 0]], shuffle=False)


@sandbox
def fam_bad(c, here):
    """Files which are no checkpoints."""
    path = here / 'model.lt'
    kind = c.choice(['missing', 'truncated', 'truncated', 'empty',
                     'garbage', 'directory'])
    model = NumpyModel.from_diagrams(circuits())
    model.initialise_weights()
    good = NumpyModel.from_diagrams(circuits())
    good.initialise_weights()
    good.save(path)
    c.ev('model_saved')
    if c.p(.5):
        make(entries(c)).to_file(path)
    raw = path.read_bytes()
    bad = here / 'bad.lt'
    cut = None
    if kind == 'truncated':
        cut = c.choice([c.int(1, len(raw) - 1), len(raw) - 1])
        bad.write_bytes(raw[:cut])
    elif kind == 'empty':
        bad.write_bytes(b'')
    elif kind == 'garbage':
        bad.write_bytes(c.choice([b'<html>404</html>', b'\x00' * 100,
                                  b'\xff' + raw, b'not a pickle']))
    elif kind == 'directory':
        bad.mkdir()
    c.ev(kind if kind != 'directory' else 'missing')
    c.note(kind=kind, cut=cut)
    c.sig('bad', kind, cut)
    exc = FileNotFoundError if kind == 'missing' else Exception
    before = bad.read_bytes() if bad.is_file() else None
    c.raises(exc, lambda: Checkpoint.from_file(bad), mechanism='loaded')
    symbols, weights = list(model.symbols), np.array(model.weights)
    c.raises(exc, lambda: model.load(bad), mechanism='model-loaded')
    c.check(model.symbols == symbols
            and np.array_equal(model.weights, weights), 'model-changed')
    c.ev('model_unchanged')
    c.raises(exc, lambda: NumpyModel.from_checkpoint(bad),
             mechanism='model-made')
    if kind != 'directory':
        log = here / 'log'
        log.mkdir()
        if before is not None:
            (log / 'model.lt').write_bytes(before)
        c.raises(exc, lambda: trainer(model, log, 1, from_checkpoint=True),
                 mechanism='training-resumed')
        c.check(model.symbols == symbols
                and np.array_equal(model.weights, weights),
                'trainer-changed')
        c.ev('trainer_unchanged')
    after = bad.read_bytes() if bad.is_file() else None
    c.check(before == after and bad.exists() == (kind != 'missing'),
            'bad-file-changed')


KEYS = {'epoch', 'step', 'train_costs', 'train_epoch_costs', 'val_costs',
        'train_eval_results', 'val_eval_results', 'random_state',
        'model_symbols', 'model_weights', 'optimizer_state_dict'}


@sandbox
def fam_training(c, here):
    """Training killed while it saves, again and again."""
    ds = data()

    def run(resume, k=None, room=None, epochs=3):
        # the profile hook costs time, so it is set while saving only
        seen = [0]
        original = Checkpoint.to_file

        def to_file(self, path):
            seen[0] += 1
            if k is not None and seen[0] == k[0]:
                crash.dying_at(lambda: original(self, path), k[1])()
                os._exit(crash.DIED)
            return original(self, path)
        Checkpoint.to_file = to_file
        model = NumpyModel.from_diagrams(ds.data)
        t = trainer(model, here, epochs, from_checkpoint=resume)
        t.fit(ds, ds)
    last = {}
    for i in range(c.int(2, 3)):
        k = (c.int(1, 4), c.int(0, 140))
        resume = (here / 'model.lt').exists()
        end = crash.forked(lambda: run(resume, k, epochs=3 + i))
        c.check(end in ('died', 'ok'), f'training-{end}')
        c.ev('training_killed')
        c.sig('training', i, k)
        c.note(**{f'run{i}': (k, end)})
        for name in ('model.lt', 'best_model.lt'):
            p = here / name
            if not p.exists():
                c.check(name not in last, 'checkpoint-lost')
                continue
            try:
                got = read(p)
            except Exception as e:
                c.fail('training-lost', f'{name}: {e!r}')
            c.check(KEYS <= set(got), 'incomplete',
                    lambda: f'{KEYS - set(got)}')
            want = got['epoch'] - (name != 'model.lt')
            c.eq(len(got['train_epoch_costs']), want, 'epochs')
            c.eq(len(got['model_weights']), len(got['model_symbols']),
                 'weights')
            if name == 'model.lt':
                c.check(got['epoch'] >= last.get(name, 0), 'went-back')
            last[name] = got['epoch']
            m = NumpyModel.from_checkpoint(p)
            c.check(np.isfinite(np.asarray(m(ds.data))).all(), 'usable')


@sandbox
def fam_reader(c, here):
    """A reader at any moment finds a complete checkpoint."""
    path = here / 'model.lt'
    size = c.choice([10, 10000, 100000])
    ents = [{'id': i, 'arr': np.full(size, i), 'end': [i] * 50}
            for i in range(c.int(4, 12))]
    make(ents[0]).to_file(path)
    c.sig('reader', size, len(ents))

    pid = os.fork()
    if not pid:
        try:
            for e in ents[1:] * 3:
                make(e).to_file(path)
        finally:
            os._exit(0)
    seen, done = set(), False
    try:
        while True:
            done = bool(os.waitpid(pid, os.WNOHANG)[0])
            try:
                got = read(path)
            except Exception as e:
                c.fail('reader-broken', f'{e!r}')
            c.check(same(got, ents[got['id']]), 'reader-mixed')
            seen.add(got['id'])
            c.ev('reader')
            if done:
                break
    finally:
        if not done:
            os.waitpid(pid, 0)
    c.check(same(read(path), ents[-1]), 'last-save')
    c.note(size=size, seen=len(seen))


FAMILIES = [
    Family('roundtrip', fam_roundtrip, 150),
    Family('crash', fam_crash, 160),
    Family('sweep', fam_sweep, 16),
    Family('bad', fam_bad, 80),
    Family('training', fam_training, 8),
    Family('reader', fam_reader, 16),
]
