"""P29 Optimisers compute their documented updates and respect bounds."""
import copy
import pickle
import warnings

import numpy as np

from lambeq import (NelderMeadOptimizer, RotosolveOptimizer, SPSAOptimizer)
from lambeq.backend.quantum import Ket, Rx, Ry
from lambeq.backend.symbol import Symbol
from lambeq.training.quantum_model import QuantumModel
from vf.core import Family

RULE = 'distinct (optimiser, losses, bounds, batches) followed'
REQUIRED = ['spsa', 'nelder_mead', 'rotosolve', 'bounded', 'unbounded',
            'outside_bounds', 'tight_bounds', 'masked', 'nested_batch',
            'strings_in_batch', 'reflect', 'expand', 'contract_outside',
            'contract_inside', 'shrink', 'converged', 'adaptive',
            'given_simplex', 'zero_weight', 'restored', 'restored_pickle',
            'restored_other_hyper', 'sinusoid', 'flat', 'refused',
            'equal_bounds', 'twice_before_step', 'clip_at_bounds',
            'one_weight', 'many_steps']
NAMES = ['a', 'b', 'c', 'd', 'e', 'f']


class Probe(QuantumModel):
    """A model whose prediction is its weights."""

    def __init__(self):
        super().__init__()
        self.seen = []

    def get_diagram_output(self, diagrams):
        self.seen.append(np.array(self.weights, dtype=float))
        return np.array(self.weights, dtype=float)

    def forward(self, x):
        return self.get_diagram_output(x)


class Setup:
    def __init__(self, c, n=None, weights=None):
        self.c = c
        self.n = n or c.choice([1, 2, 2, 3, 4, 6])
        if self.n == 1:
            c.ev('one_weight')
        self.names = NAMES[:self.n]
        self.diags = [self.diagram([x]) for x in self.names]
        self.w = np.array(weights if weights is not None
                          else c.np.uniform(size=self.n))
        if weights is None and c.p(.2):
            self.w[c.int(0, self.n - 1)] = 0.
            c.ev('zero_weight')

    @staticmethod
    def diagram(names):
        d = Ket(0)
        for x in names:
            d = d >> (Rx if x in 'ace' else Ry)(Symbol(x))
        return d

    def model(self, w=None):
        m = Probe.from_diagrams(self.diags)
        assert [s.name for s in m.symbols] == self.names
        m.weights = np.array(self.w if w is None else w)
        return m

    def batch(self, partial=None):
        """A batch, and the mask of the symbols in it."""
        c = self.c
        names = list(self.names)
        partial = c.p(.4) if partial is None else partial
        if partial and self.n > 1:
            names = c.rng.sample(names, c.int(1, self.n - 1))
            c.ev('masked')
        c.rng.shuffle(names)
        ds = []
        todo = list(names)
        while todo:
            k = c.int(1, len(todo))
            ds.append(self.diagram(todo[:k]))
            todo = todo[k:]
        x = ds
        if c.p(.3):
            c.ev('nested_batch')
            x = []
            for d in ds:
                x.append(c.choice([d, [d], (d,), {'first': d, 'n': 3},
                                   [[d], []], (1, d, None)]))
            if c.p(.4):
                c.ev('strings_in_batch')
                x = [(d, 'a sentence', '') for d in x]
        mask = np.array([n in names for n in self.names])
        return x, mask

    def function(self, kind=None):
        """A loss of the weights and the targets."""
        c, n = self.c, self.n
        kind = kind or c.choice(['quadratic', 'quadratic', 'waves',
                                 'linear', 'rosenbrock', 'abs', 'steep'])
        self.kind = kind
        A = c.np.normal(size=(n, n))
        A = A @ A.T + .1 * np.eye(n)
        mid, f, b = (c.np.uniform(-.5, 1.5, size=n),
                     c.np.normal(size=(4, n)), c.np.normal(size=(4,)))
        c.sig(kind, n)

        def value(w, y):
            t = float(np.sum(y))
            if kind == 'quadratic':
                return (w - mid) @ A @ (w - mid) + .1 * t
            if kind == 'waves':
                return float((b * np.cos(f @ w * 3 + b * t)).sum())
            if kind == 'linear':
                return float(f[0] @ w)
            if kind == 'rosenbrock':
                v = np.append(w, 1.)
                return float((10 * (v[1:] - v[:-1] ** 2) ** 2
                              + (1 - v[:-1]) ** 2).sum())
            if kind == 'abs':
                return float(np.abs(w - mid).sum() + .05 * t)
            return float(np.exp(np.clip(f[0] @ (w - mid) * 4, -30, 6)))
        return lambda y_hat, y: value(np.asarray(y_hat), np.asarray(y))


def bounds(c, s):
    k = c.choice(['wide', 'usual', 'tight', 'outside', 'equal'])
    n = s.n
    if k == 'wide':
        b = [[-2., 3.]] * n
    elif k == 'usual':
        b = [[0., 1.]] * n
    elif k == 'tight':
        b = [[x - .01, x + .03] for x in s.w]
        c.ev('tight_bounds')
    elif k == 'outside':
        b = [[x + .2, x + 1.5] if i % 2 else [x - 2, x - .3]
             for i, x in enumerate(s.w)]
        c.ev('outside_bounds')
    else:
        b = [[x, x + .5] for x in s.w]
        j = c.int(0, n - 1)
        b[j] = [b[j][0], b[j][0]]
        c.ev('equal_bounds')
    c.ev('bounded')
    c.sig(k)
    return np.array(b)


def inside(c, w, b, mech):
    c.check(np.isfinite(w).all(), mech + '-nan', lambda: f'{w}')
    if b is not None:
        c.check(((w >= b[:, 0]) & (w <= b[:, 1])).all(), mech,
                lambda: f'{w} outside {b.tolist()}')


def clip(w, b):
    return w if b is None else np.clip(w, b[:, 0], b[:, 1])


def near(c, x, y, mech, tol=1e-9):
    x, y = np.asarray(x, float), np.asarray(y, float)
    c.check(x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol),
            mech, lambda: f'{x} != {y}')


def fam_spsa(c):
    s = Setup(c)
    loss = s.function()
    b = bounds(c, s) if c.p(.5) else None
    if b is None:
        c.ev('unbounded')
    a, cc, A = (c.rng.uniform(.01, .5), c.rng.uniform(.01, .3),
                c.choice([0, 1, 10]))
    m = s.model()
    opt = SPSAOptimizer(model=m, loss_fn=loss,
                        hyperparams={'a': a, 'c': cc, 'A': A},
                        bounds=None if b is None else b.tolist())
    c.ev('spsa')
    c.note(n=s.n, kind=s.kind, a=a, c=cc, A=A, w=s.w.tolist(),
           bounds=None if b is None else b.tolist())
    np.random.seed(c.int(0, 10**6))
    steps = c.int(1, 8)
    c.sig('spsa', s.n, s.kind, steps, A, b is None)
    for k in range(1, steps + 1):
        ak, ck = a / (k + A) ** .602, cc / k ** .101
        grad = np.zeros(s.n)
        x = np.array(m.weights)
        if np.abs(x).max() > 1e4:
            break           # diverged: the perturbation drowns in rounding
        # the first step may start outside the bounds
        start = x if k > 1 else clip(x, b)
        times = 2 if c.p(.15) else 1
        if times == 2:
            c.ev('twice_before_step')
        for _ in range(times):
            batch, mask = s.batch()
            y = c.np.uniform(size=3)
            m.seen.clear()
            got = opt.backward((batch, y))
            c.eq(len(m.seen), 2, 'spsa-evaluations')
            plus, minus = m.seen
            for p in (plus, minus):
                inside(c, p, b, 'spsa-evaluated-outside')
            # each side is displaced by ck in some direction, projected
            d = np.where(plus == minus, 0, np.sign(plus - minus))
            if b is None:
                c.check((d != 0).all(), 'spsa-direction', lambda: f'{d}')
                near(c, plus, x + ck * d, 'spsa-perturbation')
                near(c, minus, x - ck * d, 'spsa-perturbation')
            else:
                for p, q in ((plus, 1), (minus, -1)):
                    ok = np.zeros(s.n, bool)
                    for z in (x, start):
                        for e in (1, -1):
                            ok |= np.isclose(p, clip(z + e * ck, b),
                                             rtol=1e-9, atol=1e-12)
                    c.check(ok.all(), 'spsa-perturbation',
                            lambda: f'{p} from {x}')
            l0, l1 = loss(plus, y), loss(minus, y)
            near(c, got, (l0 + l1) / 2, 'spsa-loss')
            g = np.zeros(s.n)
            move = plus != minus
            if not move.all():
                c.ev('clip_at_bounds')
            g[move] = (l0 - l1) / (plus - minus)[move]
            grad += np.where(mask, g, 0)
            near(c, m.weights, x, 'spsa-weights-restored')
        opt.step()
        want = clip(x - ak * grad, b)
        near(c, m.weights, want, 'spsa-update', 1e-7)
        inside(c, np.array(m.weights), b, 'spsa-outside')
        if not mask.all() and times == 1 and (b is None or k > 1):
            near(c, np.array(m.weights)[~mask], x[~mask], 'spsa-masked',
                 1e-12)
    if steps > 4:
        c.ev('many_steps')


class NM:
    """One simplex, moved by the textbook rules."""

    def __init__(self, c, w, hyper, b):
        self.c = c
        n = len(w)
        self.b = b
        if hyper.get('adaptive'):
            self.chi, self.psi, self.sigma = (1 + 2 / n, .75 - 1 / (2 * n),
                                              1 - 1 / n)
        else:
            self.chi, self.psi, self.sigma = 2., .5, .5
        self.xatol = hyper.get('xatol', 1e-4)
        self.fatol = hyper.get('fatol', 1e-4)
        given = hyper.get('initial_simplex')
        if given is not None:
            pts = [np.array(p, float) for p in given]
        else:
            pts = [np.array(clip(w, b))]
            for i in range(n):
                p = pts[0].copy()
                p[i] = p[i] * 1.05 if p[i] else .00025
                pts.append(p)
        self.pts = [[None, clip(p, b)] for p in pts]

    def order(self):
        self.pts.sort(key=lambda p: p[0])

    def move(self, f):
        c, n = self.c, len(self.pts) - 1
        if self.pts[0][0] is None:
            for p in self.pts:
                p[0] = f(p[1])
            self.order()
        # a tie could be broken either way
        vals = sorted(p[0] for p in self.pts)
        if any(q - p < 1e-12 * (1 + abs(p)) for p, q in zip(vals,
                                                            vals[1:])):
            return 'tie'
        best, worst = self.pts[0], self.pts[-1]
        spread = max(np.abs(p[1] - best[1]).max() for p in self.pts[1:])
        fspread = max(abs(p[0] - best[0]) for p in self.pts[1:])
        if spread <= self.xatol and fspread <= self.fatol:
            c.ev('converged')
            return 'converged'
        mid = sum(p[1] for p in self.pts[:-1]) / n

        def at(t):
            x = clip(mid + t * (mid - worst[1]), self.b)
            return [f(x), x]
        r = at(1.)
        if r[0] < best[0]:
            e = at(self.chi)
            c.ev('expand' if e[0] < r[0] else 'reflect')
            new = e if e[0] < r[0] else r
        elif r[0] < self.pts[-2][0]:
            c.ev('reflect')
            new = r
        elif r[0] < worst[0]:
            k = at(self.psi)
            new = k if k[0] <= r[0] else None
            c.ev('contract_outside')
        else:
            k = at(-self.psi)
            new = k if k[0] < worst[0] else None
            c.ev('contract_inside')
        if new is None:
            c.ev('shrink')
            for p in self.pts[1:]:
                p[1] = clip(best[1] + self.sigma * (p[1] - best[1]), self.b)
                p[0] = f(p[1])
        else:
            self.pts[-1] = new
        self.order()
        return 'moved'


def hyper_nm(c, s):
    h = {}
    if c.p(.4):
        h['adaptive'] = True
        c.ev('adaptive')
    if c.p(.2):
        h |= {'xatol': .3, 'fatol': .5}
    if c.p(.25):
        h['initial_simplex'] = (s.w + c.np.normal(
            size=(s.n + 1, s.n)) * .4).tolist()
        c.ev('given_simplex')
    return h


def fam_nm(c):
    s = Setup(c)
    loss = s.function()
    b = bounds(c, s) if c.p(.4) else None
    if b is not None and (b[:, 0] == b[:, 1]).any():
        b = None
    h = hyper_nm(c, s)
    m = s.model()
    c.ev('nelder_mead')
    c.note(n=s.n, kind=s.kind, hyper=h, w=s.w.tolist(),
           bounds=None if b is None else b.tolist())
    c.sig(sorted(h))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        opt = NelderMeadOptimizer(
            model=m, loss_fn=loss, hyperparams=dict(h),
            bounds=None if b is None else b.tolist())
        ref = NM(c, s.w, h, b)
        least = np.inf
        y = c.np.uniform(size=2)
        steps = c.choice([3, 8, 25, 60])
        c.sig('nm', s.n, s.kind, steps, sorted(h), b is None)
        if steps > 20:
            c.ev('many_steps')
        for _ in range(steps):
            batch, mask = s.batch(c.p(.15))
            # every evaluation under the same targets, or changing ones
            if c.p(.1):
                y = c.np.uniform(size=2)
            before = np.array(m.weights)
            m.seen.clear()
            how = ref.move(lambda w: loss(w, y))
            got = opt.backward((batch, y))
            for p in m.seen:
                inside(c, p, b, 'nm-evaluated-outside')
            if how == 'tie':
                break
            near(c, got, ref.pts[0][0], 'nm-loss', 1e-7)
            c.check(got <= least + 1e-12, 'nm-best-increased',
                    lambda: f'{got} > {least}')
            least = got
            opt.step()
            w = np.array(m.weights)
            near(c, w[mask], ref.pts[0][1][mask], 'nm-update', 1e-7)
            inside(c, w, b, 'nm-outside')
            rest = w[~mask]
            if len(rest):
                zero = clip(np.zeros(s.n), b)[~mask]
                if not np.allclose(rest, clip(before, b)[~mask]):
                    # a known defect, pinned by a test, is to zero them
                    c.known_if('nm-absent-zeroed', np.allclose(rest, zero),
                               f'{rest} of {before[~mask]}')
                    c.check(np.allclose(rest, zero), 'nm-masked',
                            lambda: f'{rest} from {before[~mask]}')


def fam_roto(c):
    s = Setup(c)
    n = s.n
    flat = c.p(.15)
    # sinusoidal along every coordinate, of period one
    terms = [(c.np.normal(), c.np.uniform(.2, 1, size=n),
              c.np.uniform(-1, 1, size=n), c.np.uniform(size=n))
             for _ in range(c.int(1, 3))]
    dead = set(c.rng.sample(range(n), c.int(0, n - 1))) if flat else set()
    if dead:
        c.ev('flat')

    def value(w):
        out = 0.
        for a, u, v, p in terms:
            wave = u + v * np.cos(2 * np.pi * (w - p))
            out += a * np.prod([wave[i] for i in range(n) if i not in dead])
        return float(out)

    def loss(y_hat, y):
        return value(np.asarray(y_hat)) + float(np.sum(y))
    w0 = c.np.uniform(-1, 2, size=n) if c.p(.5) else s.w
    m = s.model(w0)
    opt = RotosolveOptimizer(model=m, loss_fn=loss, hyperparams={},
                             bounds=[[0, .1]] * n if c.p(.3) else None)
    c.ev('rotosolve')
    c.ev('sinusoid')
    c.note(n=n, w=np.array(w0).tolist(), dead=sorted(dead))
    c.sig(n, len(terms), len(dead))
    y = c.np.uniform(size=2)
    grid = np.arange(64) / 64
    for _ in range(c.int(1, 4)):
        old = np.array(m.weights)
        batch, _ = s.batch(False)
        got = opt.backward((batch, y))
        new = np.array(m.weights)
        opt.step()
        near(c, m.weights, new, 'roto-step')
        inside(c, new, None, 'roto')
        c.check(((new >= 0) & (new < 1 + 1e-12)).all(), 'roto-range',
                lambda: f'{new}')
        near(c, got, loss(new, y), 'roto-loss')
        w = old.copy()
        for i in range(n):
            line = []
            for t in grid:
                z = w.copy()
                z[i] = t
                line.append(value(z))
            line = np.array(line)
            mean = line.mean()
            amp = 2 * abs((line * np.exp(2j * np.pi * grid)).mean())
            w[i] = new[i]
            c.check(abs(value(w) - (mean - amp)) < 1e-7 * (1 + abs(mean)),
                    'roto-not-minimal', lambda: f'coordinate {i}: {value(w)}'
                    f' > {mean - amp}')
        opt.zero_grad()


def fam_state(c):
    """Saved and restored, the optimiser goes on as it was."""
    s = Setup(c)
    loss = s.function(c.choice(['quadratic', 'waves', 'abs']))
    which = c.choice([SPSAOptimizer, SPSAOptimizer, NelderMeadOptimizer,
                      NelderMeadOptimizer, RotosolveOptimizer])
    b = None
    if which is not RotosolveOptimizer and c.p(.3):
        b = np.array([[-1., 2.]] * s.n)
    h, other = {}, {}
    if which is SPSAOptimizer:
        h = {'a': c.rng.uniform(.01, .3), 'c': c.rng.uniform(.02, .2),
             'A': c.choice([0, 1, 5])}
        other = {'a': .2, 'c': .1, 'A': 3}
    elif which is NelderMeadOptimizer:
        h = hyper_nm(c, s)
    kw = {} if b is None else {'bounds': b.tolist()}
    c.note(opt=which.__name__, n=s.n, kind=s.kind, hyper=h)
    c.sig(which.__name__, sorted(h))
    batches = [(s.batch(False)[0], c.np.uniform(size=2)) for _ in range(9)]
    k = c.int(0, 5)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = s.model()
        opt = which(model=m, loss_fn=loss, hyperparams=dict(h), **kw)
        np.random.seed(3)
        for x in batches[:k]:
            opt.backward(x)
            opt.step()
            opt.zero_grad()
        how = c.choice(['memory', 'pickle'])
        saved = opt.state_dict()
        blob = pickle.dumps(saved)
        w, rng = np.array(m.weights), np.random.get_state()
        want = []
        for x in batches[k:]:
            l0 = opt.backward(x)
            opt.step()
            opt.zero_grad()
            want.append((l0, np.array(m.weights)))
        if how == 'pickle':
            saved = pickle.loads(blob)
            c.ev('restored_pickle')
        for again in range(2):
            m2 = s.model(w)
            h2 = h
            if which is SPSAOptimizer and c.p(.5):
                h2 = other
                c.ev('restored_other_hyper')
            elif which is NelderMeadOptimizer and c.p(.5):
                h2 = {'adaptive': not h.get('adaptive')}
                c.ev('restored_other_hyper')
            opt2 = which(model=m2, loss_fn=loss, hyperparams=dict(h2), **kw)
            m2.weights = np.array(w)
            opt2.load_state_dict(saved)
            np.random.set_state(rng)
            for x, (l0, ww) in zip(batches[k:], want):
                l1 = opt2.backward(x)
                opt2.step()
                opt2.zero_grad()
                near(c, l1, l0, 'restored-loss', 1e-9)
                near(c, m2.weights, ww, 'restored-weights', 1e-9)
        c.ev('restored')


def fam_refused(c):
    s = Setup(c, c.int(2, 4))
    loss = s.function()
    m = s.model()
    c.sig('refused')
    for drop in ('a', 'c', 'A'):
        h = {k: .1 for k in 'acA' if k != drop}
        c.raises(ValueError, lambda: SPSAOptimizer(
            model=m, loss_fn=loss, hyperparams=h), mechanism='hyperparams')
    c.raises(ValueError, lambda: SPSAOptimizer(
        model=m, loss_fn=loss, hyperparams=None), mechanism='hyperparams')
    bad = [[0, 1]] * (s.n + c.choice([-1, 1]))
    c.raises(ValueError, lambda: SPSAOptimizer(
        model=m, loss_fn=loss, hyperparams={'a': 1, 'c': 1, 'A': 1},
        bounds=bad), mechanism='bounds-length')
    c.raises(ValueError, lambda: NelderMeadOptimizer(
        model=m, loss_fn=loss, bounds=bad), mechanism='bounds-length')
    wrong = [[0, 1]] * s.n
    wrong[c.int(0, s.n - 1)] = [.7, .2]
    c.raises(ValueError, lambda: NelderMeadOptimizer(
        model=m, loss_fn=loss, bounds=wrong), mechanism='bounds-order')
    for shape in ((s.n, s.n), (s.n + 2, s.n), (s.n + 2, s.n + 1),
                  (s.n, s.n - 1)):
        c.raises(ValueError, lambda: NelderMeadOptimizer(
            model=m, loss_fn=loss, hyperparams={
                'initial_simplex': np.zeros(shape)}), mechanism='simplex')
    near(c, m.weights, s.w, 'refusal-changed-weights', 1e-15)
    c.ev('refused')


FAMILIES = [
    Family('spsa', fam_spsa, 500),
    Family('nelder_mead', fam_nm, 500),
    Family('rotosolve', fam_roto, 300),
    Family('state', fam_state, 300),
    Family('refused', fam_refused, 40),
]
