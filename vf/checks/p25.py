"""P25 Datasets deliver every example exactly once per epoch."""
import random
from collections import Counter

import numpy as np

from lambeq import Dataset
from lambeq.backend import numerical_backend
from lambeq.backend.grammar import Box, Ty
from vf.core import Family

RULE = 'distinct (size, batch size, shuffle, kinds of data, epochs)'
REQUIRED = ['shuffle', 'in_order', 'whole_batch', 'short_last', 'even',
            'batch_one', 'batch_larger', 'scalar_targets', 'vector_targets',
            'matrix_targets', 'string_data', 'diagram_data', 'array_data',
            'duplicates', 'several_epochs', 'interleaved', 'abandoned',
            'seeded', 'mismatch', 'index', 'slice', 'reordered', 'numpy',
            'torch', 'jax', 'many_examples', 'tuple_targets',
            'switch_midway']


class Item:
    """An example known by identity only."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Item({self.n})'


def examples(c, n):
    kind = c.choice(['object', 'string', 'diagram', 'array', 'duplicate',
                     'number', 'list'])
    if kind == 'string':
        data = [f'sentence {i}' for i in range(n)]
        c.ev('string_data')
    elif kind == 'diagram':
        data = [Box(f'w{i}', Ty(), Ty('s')).to_diagram() for i in range(n)]
        c.ev('diagram_data')
    elif kind == 'array':
        data = c.np.normal(size=(n, 2))
        c.ev('array_data')
    elif kind == 'duplicate':
        pool = [Item(i) for i in range(max(1, n // 2))]
        data = [c.choice(pool) for _ in range(n)]
        c.ev('duplicates')
    elif kind == 'number':
        data = list(range(n))
    elif kind == 'list':
        data = [[Item(i), i] for i in range(n)]
    else:
        data = [Item(i) for i in range(n)]
    t = c.choice(['scalar', 'vector', 'matrix', 'array', 'tuple', 'same'])
    ids = list(range(n))
    c.rng.shuffle(ids)
    if t == 'scalar':
        targets = [float(i) for i in ids] if c.p(.5) else list(ids)
        c.ev('scalar_targets')
    elif t == 'same':
        targets = [i % 2 for i in ids]
        c.ev('scalar_targets')
    elif t == 'matrix':
        targets = [[[i, 1], [0, -i]] for i in ids]
        c.ev('matrix_targets')
    elif t == 'array':
        targets = np.array([[i, 1 - i] for i in ids])
        c.ev('vector_targets')
    elif t == 'tuple':
        targets = tuple((i, i + .5) for i in ids)
        c.ev('tuple_targets')
    else:
        targets = [[i, 1 - i] for i in ids]
        c.ev('vector_targets')
    return kind, t, data, targets


def key(x):
    return tuple(map(float, x)) if isinstance(x, np.ndarray) else id(x) if (
        not isinstance(x, (str, int, float))) else x


def flat(y):
    return tuple(np.asarray(y, dtype=float).reshape(-1).tolist())


def pairs(xs, ys):
    return [(key(x), flat(y)) for x, y in zip(xs, ys)]


def deliver(c, ds, n, size):
    """One epoch: the pairs delivered, with the batches checked."""
    out, batches = [], 0
    for x, y in ds:
        batches += 1
        c.check(len(x) == len(y), 'batch-lengths',
                lambda: f'{len(x)} inputs, {len(y)} targets')
        left = n - len(out)
        c.eq(len(x), min(size, left), 'batch-size')
        out += pairs(x, np.asarray(y))
    c.eq(batches, -(-n // size), 'batches')
    c.eq(ds.batches_per_epoch, batches, 'batches_per_epoch')
    return out


def reseed(seed):
    import torch
    random.seed(seed)
    np.random.seed(seed)
    torch.manual_seed(seed)


def setting(c):
    n = c.choice([1, 2, 3, 4, 5, 7, 8, 12, 13, c.int(14, 40)])
    if c.p(.02):
        n = 500
        c.ev('many_examples')
    kind, t, data, targets = examples(c, n)
    b = c.choice([0, 1, 2, 3, n, n + 3, c.int(1, n)])
    size = b or n
    c.ev('whole_batch' if b == 0 else 'batch_one' if b == 1 else
         'batch_larger' if b > n else 'even' if n % b == 0 else
         'short_last')
    shuffle = c.p(.6)
    c.ev('shuffle' if shuffle else 'in_order')
    return n, kind, t, data, targets, b, size, shuffle


def fam_epochs(c):
    n, kind, t, data, targets, b, size, shuffle = setting(c)
    epochs = c.int(1, 4)
    if epochs > 1:
        c.ev('several_epochs')
    c.note(n=n, kind=kind, targets=t, batch=b, shuffle=shuffle,
           epochs=epochs)
    c.sig(n, kind, t, b, shuffle, epochs)
    c.sample(f'{n} x {kind}/{t}, batches of {b}, shuffle={shuffle}')
    ds = Dataset(data, targets, batch_size=b, shuffle=shuffle)
    want = pairs(data, targets)
    before = [key(x) for x in data], [flat(y) for y in targets]
    c.eq(len(ds), n, 'len')
    seed = c.int(0, 10 ** 6)
    which = c.choice(['numpy', 'torch', 'jax'] if c.p(.3) else ['numpy'])
    c.ev(which)
    orders = []
    reseed(seed)
    with numerical_backend.backend(
            {'torch': 'pytorch'}.get(which, which)):
        for _ in range(epochs):
            got = deliver(c, ds, n, size)
            c.check(Counter(got) == Counter(want), 'exactly-once',
                    lambda: f'{got} for {want}')
            if not shuffle:
                c.eq(got, want, 'order')
            orders.append(got)
        if shuffle and len(set(want)) > 7:
            more = [deliver(c, ds, n, size) for _ in range(3)]
            c.check(any(o != want for o in orders + more), 'never-shuffled')
            c.ev('reordered')
    c.eq(([key(x) for x in data], [flat(y) for y in targets]), before,
         'lists-changed')
    c.check(ds.data is data or [key(x) for x in ds.data] == before[0],
            'data-changed')
    # the same seed gives the same epochs
    c.ev('seeded')
    reseed(seed)
    other = Dataset(data, targets, batch_size=b, shuffle=shuffle)
    again = [deliver(c, other, n, size) for _ in range(epochs)]
    c.eq(again, orders, 'reproducible')


def fam_hostile(c):
    """Abandoned, nested and concurrent iterations."""
    n, kind, t, data, targets, b, size, shuffle = setting(c)
    ds = Dataset(data, targets, batch_size=b, shuffle=shuffle)
    want = Counter(pairs(data, targets))
    c.note(n=n, kind=kind, targets=t, batch=b, shuffle=shuffle)
    c.sig(n, kind, t, b, shuffle, 'hostile')
    total = -(-n // size)
    stop = c.int(0, total - 1)
    for i, _ in enumerate(ds):
        if i == stop:
            break
    c.ev('abandoned')
    c.check(Counter(deliver(c, ds, n, size)) == want, 'after-abandoned')
    c.ev('interleaved')
    its = [iter(ds), iter(ds), iter(ds)]
    outs = [[], [], []]
    live = [0, 1, 2]
    while live:
        i = c.choice(live)
        try:
            x, y = next(its[i])
        except StopIteration:
            live.remove(i)
            continue
        outs[i] += pairs(x, np.asarray(y))
        if c.p(.2):
            random.random()
            next(iter(ds))
    for got in outs:
        c.check(Counter(got) == want, 'interleaved')
    if not shuffle:
        c.check(all(o == pairs(data, targets) for o in outs),
                'interleaved-order')
    # the backend is whichever is active when iteration starts
    c.ev('switch_midway')
    with numerical_backend.backend('pytorch'):
        import torch
        for x, y in ds:
            c.check(isinstance(y, torch.Tensor), 'backend-type')
    for x, y in ds:
        c.check(isinstance(y, np.ndarray), 'backend-type')


def fam_index(c):
    n, kind, t, data, targets, b, size, shuffle = setting(c)
    ds = Dataset(data, targets, batch_size=b, shuffle=shuffle)
    want = pairs(data, targets)
    c.sig(n, kind, t, 'index')
    c.ev('index')
    for _ in range(5):
        i = c.int(-n, n - 1)
        x, y = ds[i]
        c.eq((key(x), flat(y)), want[i], 'index')
    c.raises((IndexError, KeyError), lambda: ds[n], mechanism='out-of-range')
    c.ev('slice')
    i, j = sorted((c.int(0, n), c.int(0, n)))
    s = slice(i, j, c.choice([None, 1, 2]))
    if len(want[s]):
        x, y = ds[s]
        c.eq(pairs(x, y), want[s], 'slice')
    m = max(0, n + c.choice([-1, 1, 2]))
    more = list(targets) + list(targets) + list(targets)
    c.ev('mismatch')
    c.raises(ValueError, lambda: Dataset(data, more[:m]),
             mechanism='mismatch')


FAMILIES = [
    Family('epochs', fam_epochs, 600),
    Family('hostile', fam_hostile, 300),
    Family('index', fam_index, 200),
]
