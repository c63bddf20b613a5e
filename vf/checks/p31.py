"""P31 Loss functions equal their definitions."""
import math
import os

os.environ.setdefault('JAX_PLATFORMS', 'cpu')

import numpy as np

from lambeq import BinaryCrossEntropyLoss, CrossEntropyLoss, MSELoss
from vf.core import Family

RULE = 'distinct (loss, backend, shape, kind of rows, number type) judged'
REQUIRED = ['ce', 'bce', 'bce_sparse', 'mse', 'numpy', 'jax', 'exact_zero',
            'exact_one', 'near_zero', 'all_wrong', 'perfect', 'soft_targets',
            'one_class', 'one_example', 'many_examples', 'float32',
            'integers', 'epsilon', 'reordered', 'moved_mass', 'mismatch',
            'gradient', 'gradient_at_zero', 'jit', 'cross_input', 'agreement',
            'three_axes', 'batch_sum']


def worker_setup():
    import jax
    jax.numpy.zeros(1)


def make(c, kind, jax, eps):
    c.ev(kind)
    c.ev('jax' if jax else 'numpy')
    kw = {}
    if jax or c.p(.5):
        kw['use_jax'] = jax
    if kind == 'mse':
        return MSELoss(**kw)
    if eps is not None:
        kw['epsilon'] = eps
    if kind == 'ce':
        return CrossEntropyLoss(**kw)
    if kind == 'bce_sparse':
        return BinaryCrossEntropyLoss(sparse=True, **kw)
    return BinaryCrossEntropyLoss(**kw)


def rows(c, n, k):
    """Probability rows, often with entries of exactly zero or one."""
    out = []
    for _ in range(n):
        how = c.choice(['dense', 'dense', 'zeros', 'onehot', 'tiny'])
        r = c.np.uniform(size=k) + 1e-3
        if how == 'zeros' and k > 1:
            r[c.rng.sample(range(k), c.int(1, k - 1))] = 0.
        elif how == 'onehot':
            r = np.zeros(k)
            r[c.int(0, k - 1)] = 1.
        elif how == 'tiny' and k > 1:
            r[c.int(0, k - 1)] = 10. ** -c.int(4, 30)
            c.ev('near_zero')
        out.append(r / r.sum())
    return np.array(out).reshape(n, k)


def targets(c, n, k, pred, soft=False):
    if soft:
        t = c.np.uniform(size=(n, k))
        c.ev('soft_targets')
        return t / t.sum(1, keepdims=True)
    how = c.choice(['random', 'random', 'perfect', 'wrong'])
    t = np.zeros((n, k))
    for i in range(n):
        j = c.int(0, k - 1)
        if how == 'perfect':
            j = int(np.argmax(pred[i]))
        elif how == 'wrong':
            j = int(np.argmin(pred[i]))
        t[i, j] = 1
    if how == 'wrong':
        c.ev('all_wrong')
    return t


def size(c):
    n = c.choice([1, 1, 2, 3, 5, 8, 40])
    if n == 1:
        c.ev('one_example')
    if n == 40:
        c.ev('many_examples')
    return n


class Item:
    """A loss, a prediction and its targets."""

    def __init__(self, c, kind=None, jax=None, dense=False):
        self.c = c
        self.kind = kind = kind or c.choice(['ce', 'bce', 'bce_sparse',
                                             'mse'])
        self.jax = c.p(.4) if jax is None else jax
        self.eps = 1e-9
        given = None
        if kind != 'mse' and c.p(.2):
            given = self.eps = c.choice([1e-12, 1e-7, 1e-5, 1e-3])
            if self.jax:
                given = self.eps = max(self.eps, 1e-9)
            c.ev('epsilon')
        self.loss = make(c, kind, self.jax, given)
        n = size(c)
        if kind == 'mse':
            shape = c.choice([(n,), (n, 2), (n, 3), (n, 2, 2), (n, 1)])
            if len(shape) == 3:
                c.ev('three_axes')
            self.p = c.np.normal(size=shape) * c.choice([1, 1, 1e-3, 1e3])
            self.t = (self.p.copy() if c.p(.15)
                      else np.where(c.np.uniform(size=shape) < .5, self.p,
                                    c.np.normal(size=shape)))
            if c.p(.3):
                self.t = (c.np.uniform(size=shape) < .5).astype(float)
        else:
            k = 2
            if kind == 'ce':
                k = c.choice([1, 2, 3, 4, 7])
                if k == 1:
                    c.ev('one_class')
            if dense:
                self.p = c.np.uniform(.05, 1, size=(n, k))
                self.p /= self.p.sum(1, keepdims=True)
            else:
                self.p = rows(c, n, k)
            self.t = targets(c, n, k, self.p, kind != 'bce_sparse'
                             and c.p(.15))
            if kind == 'bce_sparse':
                self.p, self.t = self.p[:, 1].copy(), self.t[:, 1].copy()
            if (self.p == 0).any():
                c.ev('exact_zero')
            if (self.p == 1).any():
                c.ev('exact_one')
        if self.jax or c.p(.2):
            self.p = self.p.astype(np.float32)
            c.ev('float32')
        if np.array_equal(self.t, np.round(self.t)) and c.p(.5):
            self.t = self.t.astype(c.choice([np.int64, np.int32, np.int8]))
            c.ev('integers')
        if self.p.dtype != np.float32:
            self.single = self.jax
        else:
            self.single = True
        if self.jax and self.t.dtype.kind == 'f':
            self.t = self.t.astype(np.float32)
        c.sig(kind, self.jax, self.p.shape, str(self.p.dtype),
              str(self.t.dtype), int((self.p == 0).sum() > 0),
              int((self.p == 1).sum() > 0))
        c.note(kind=kind, jax=self.jax, eps=self.eps, p=self.p.tolist()[:6],
               t=self.t.tolist()[:6])

    def give(self, a, cross=False):
        if self.jax != cross:
            from jax import numpy as jnp
            return jnp.array(a)
        return np.array(a)

    def value(self, p=None, t=None, loss=None):
        p, t = self.p if p is None else p, self.t if t is None else t
        return float((loss or self.loss)(self.give(p), self.give(t)))

    def range(self, p=None, t=None):
        """The values the definition allows, for any way of smoothing by
        eps."""
        p = np.asarray(self.p if p is None else p, dtype=np.float64)
        t = np.asarray(self.t if t is None else t, dtype=np.float64)
        if self.kind == 'mse':
            v = math.fsum(((p - t) ** 2).ravel().tolist()) / p.size
            return v, v
        if self.kind == 'bce_sparse':
            p, t = np.stack((1 - p, p), 1), np.stack((1 - t, t), 1)
        n, k = p.shape
        eps = self.eps
        lo, hi = [], []
        for i in range(n):
            for j in range(k):
                if not t[i, j]:
                    continue
                x = float(p[i, j])
                most = min(x + k * eps, 1.)
                least = max(x, eps) / (1 + k * eps)
                lo.append(-t[i, j] * math.log(most))
                hi.append(-t[i, j] * math.log(least))
        return math.fsum(lo) / n, math.fsum(hi) / n

    @property
    def tol(self):
        return 3e-6 if self.single else 1e-11

    def judge(self, v, p=None, t=None, mech='value'):
        lo, hi = self.range(p, t)
        slack = self.tol * (1 + abs(hi))
        self.c.check(math.isfinite(v), mech + '-not-finite', lambda: str(v))
        self.c.check(lo - slack <= v <= hi + slack, mech,
                     lambda: f'{v} not in [{lo}, {hi}]')


def fam_value(c):
    s = Item(c)
    p0, t0 = s.p.copy(), s.t.copy()
    v = s.value()
    s.judge(v)
    c.check(v >= -s.tol, 'negative', lambda: str(v))
    # any split of the examples: the total is the sum of its parts
    n = len(s.p)
    if n > 1:
        k = c.int(1, n - 1)
        a, b = s.value(s.p[:k], s.t[:k]), s.value(s.p[k:], s.t[k:])
        c.close((a * k + b * (n - k)) / n, v, 'parts',
                rtol=0, atol=s.tol * 9 * (1 + abs(v)))
        c.ev('batch_sum')
    # reordering the examples
    o = c.np.permutation(n)
    c.close(s.value(s.p[o], s.t[o]), v, 'reordered',
            rtol=0, atol=s.tol * 9 * (1 + abs(v)))
    c.ev('reordered')
    # and the classes
    if s.kind in ('ce', 'bce', 'mse') and s.p.ndim == 2:
        o = c.np.permutation(s.p.shape[1])
        c.close(s.value(s.p[:, o], s.t[:, o]), v, 'reordered-classes',
                rtol=0, atol=s.tol * 9 * (1 + abs(v)))
    # called again, on arrays it has not altered
    a, b = s.give(s.p), s.give(s.t)
    first, second = float(s.loss(a, b)), float(s.loss(a, b))
    c.eq(first, second, 'repeated')
    c.check(np.array_equal(np.asarray(a), p0)
            and np.array_equal(np.asarray(b), t0), 'arguments-changed', '')
    # arrays of the other kind
    if c.p(.3):
        v2 = float(s.loss(s.give(s.p, True), s.give(s.t, True)))
        s.single = True
        s.judge(v2, s.p.astype(np.float32), s.t.astype(np.float32),
                'cross-input')
        c.ev('cross_input')


def fam_minimum(c):
    """The loss is least where the predictions match the targets."""
    s = Item(c, dense=True)
    v = s.value()
    if s.kind == 'mse':
        c.check(abs(s.value(s.t.astype(s.p.dtype))) <= s.tol, 'minimum',
                'prediction equals target')
    else:
        best = s.value(np.asarray(s.t, dtype=s.p.dtype))
        c.check(best <= v + s.tol, 'minimum', lambda: f'{best} > {v}')
        if np.array_equal(s.t, np.round(s.t)):
            c.check(-s.tol <= best <= 20 * s.eps + s.tol,
                    'minimum-not-zero', lambda: str(best))
            c.ev('perfect')
    # moving a prediction towards the target never raises the loss
    q = s.p + np.asarray((s.t - s.p) * c.rng.uniform(.2, .9)).astype(
        s.p.dtype)
    u = s.value(q)
    c.check(u <= v + s.tol * (1 + v), 'moved-mass', lambda: f'{u} > {v}')
    gap = np.abs(np.asarray(s.t, float) - s.p).max()
    if s.kind == 'mse' and gap > .1 or (
            s.kind != 'mse' and np.array_equal(s.t, np.round(s.t))
            and gap > .1):
        c.check(u < v, 'moved-mass', lambda: f'{u} not below {v}')
    c.ev('moved_mass')


def fam_backends(c):
    """Both backends give the same number."""
    s = Item(c, jax=True)
    v = s.value()
    kw = {} if s.kind == 'mse' else {'epsilon': s.eps}
    loss = {'mse': MSELoss, 'ce': CrossEntropyLoss,
            'bce': BinaryCrossEntropyLoss,
            'bce_sparse': BinaryCrossEntropyLoss}[s.kind]
    if s.kind == 'bce_sparse':
        kw['sparse'] = True
    other = loss(**kw)
    u = float(other(np.array(s.p), np.array(s.t)))
    c.check(abs(u - v) <= 2e-5 * (1 + abs(v)), 'backends-differ',
            lambda: f'{u} != {v}')
    c.ev('agreement')


def fam_gradient(c):
    import jax
    s = Item(c, jax=True, dense=c.p(.6))
    p, t = s.give(s.p), s.give(s.t)
    v = s.value()
    if c.p(.4):
        c.close(float(jax.jit(s.loss)(p, t)), v, 'jit',
                rtol=0, atol=1e-5 * (1 + abs(v)))
        c.ev('jit')
    g = np.asarray(jax.grad(lambda x: s.loss(x, t))(p), dtype=float)
    c.eq(g.shape, s.p.shape, 'gradient-shape')
    c.check(np.isfinite(g).all(), 'gradient-not-finite', lambda: str(g))
    q = s.p.astype(float)
    y = np.asarray(s.t, dtype=float)
    n = len(q)
    if s.kind == 'mse':
        want = 2 * (q - y) / q.size
    elif s.kind == 'bce_sparse':
        want = -(y / (q + s.eps) - (1 - y) / (1 - q + s.eps)) / n
    else:
        # each row is scaled to sum to one
        want = (-y / (q + s.eps) + y.sum(1, keepdims=True)
                / (q + s.eps).sum(1, keepdims=True)) / n
    # close to zero the kind of smoothing decides
    sure = np.ones(q.shape, bool)
    if s.kind != 'mse':
        sure = (q > 1e3 * s.eps) & (1 - q > 1e3 * s.eps)
        if s.kind != 'bce_sparse' and q.shape[1] == 1:
            sure[:] = True
            want[:] = 0.
        if not sure.all():
            c.ev('gradient_at_zero')
    scale = 1 + np.abs(want)
    c.check((np.abs(g - want) <= (5e-3 if s.eps > 1e-9 else 2e-4)
             * scale)[sure].all(), 'gradient',
            lambda: f'{g.tolist()} != {want.tolist()}')
    c.ev('gradient')


def fam_mismatch(c):
    kind = c.choice(['ce', 'bce', 'bce_sparse', 'mse'])
    s = Item(c, kind, dense=True)
    sh = s.p.shape
    n = sh[0]
    cands = [(n + 1,) + sh[1:], (1,) + sh, sh + (1,)]
    if n > 1:
        cands += [(1,) + sh[1:], (n - 1,) + sh[1:]]
    if len(sh) > 1:
        cands += [sh[:-1], sh[:-1] + (sh[-1] + 1,)]
        if sh[::-1] != sh:
            cands.append(sh[::-1])
        if sh[-1] > 1:
            cands.append(sh[:-1] + (1,))
    for bad in cands:
        other = np.full(bad, .5, dtype=s.p.dtype)
        for pair in ((s.p, other), (other, s.t)):
            c.raises(ValueError, lambda: s.loss(*map(s.give, pair)),
                     mechanism='mismatch-accepted')
    c.ev('mismatch')


FAMILIES = [
    Family('value', fam_value, 1500, 15000),
    Family('minimum', fam_minimum, 500, 5000),
    Family('backends', fam_backends, 200, 2000),
    Family('gradient', fam_gradient, 160, 2000),
    Family('mismatch', fam_mismatch, 100, 1000),
]
