"""P30 All model backends predict what the diagram evaluates to."""
import numpy as np
import torch

from lambeq import NumpyModel, PytorchModel, PytorchQuantumModel
from lambeq.backend import quantum as Q
from lambeq.backend.symbol import Symbol
from vf import models
from vf.core import Family
from vf.models import (batch, circuits, expected, make, run, set_weights,
                       tensors)
from vf.tsim import close

RULE = 'distinct (kind of model, circuits or tensor diagrams) predicted'
KINDS = models.KINDS + ['pennylane_unit', 'pennylane_raw']
REQUIRED = KINDS + ['single', 'several', 'repeated', 'reordered', 'split',
                    'mixed', 'any', 'negated', 'scaled_symbol', 'scalar_out',
                    'two_qubits', 'shared_symbol', 'weights_changed',
                    'jit_equals', 'gradient', 'distribution', 'retrained',
                    'order_of_diagrams', 'post_selected', 'small_norm',
                    'lists', 'unknown_symbol', 'closed_mixed',
                    'initialised_again', 'rare']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)


def tol(kind):
    return 1e-7 if kind in ('numpy', 'tket') else 2e-4


def snapshot(d):
    return repr(d), [(repr(b), repr(b.data), b.z) for b in d.boxes]


def agree(c, kind, got, want, mech):
    c.check(got.shape == want.shape, f'{mech}-shape',
            lambda: f'{kind}: {got.shape} != {want.shape}')
    c.check(close(got, want, tol(kind)), mech,
            lambda: f'{kind}: {got} != {want}')


def distribution(c, kind, got):
    if kind in ('pytorch', 'pennylane_states', 'pennylane_raw',
                'pennylane_unit'):
        return
    c.ev('distribution')
    c.check((got >= -1e-6).all() and np.allclose(
        got.reshape(len(got), -1).sum(1), 1, atol=1e-4), 'distribution',
        lambda: f'{kind}: {got}')


def predict(c, kind, gs, table):
    ds = [g.diag for g in gs]
    before = [snapshot(d) for d in ds]
    build = list(ds)
    c.rng.shuffle(build)
    if build != ds:
        c.ev('order_of_diagrams')
    model = make(kind, build)
    c.eq(sorted(s.name for s in model.symbols),
         sorted(s.name for s in set().union(*[g.used for g in gs])),
         'symbols')
    c.check(len(set(model.symbols)) == len(model.symbols), 'symbol-twice')
    set_weights(model, kind, table)
    want = expected(kind, gs)
    got = run(model, ds)
    agree(c, kind, got, want, 'prediction')
    if want.ndim > 1:
        distribution(c, kind, got)
    c.ev('single' if len(ds) == 1 else 'several')
    # again, one at a time, in another order, in lists of its own
    c.ev('repeated')
    agree(c, kind, run(model, list(ds)), want, 'again')
    i = c.int(0, len(ds) - 1)
    agree(c, kind, run(model, [ds[i]]), want[i:i + 1], 'alone')
    c.ev('split')
    order = list(range(len(ds)))
    c.rng.shuffle(order)
    order += [c.choice(order)]
    agree(c, kind, run(model, [ds[j] for j in order]), want[order],
          'reordered')
    c.ev('reordered')
    c.eq([snapshot(d) for d in ds], before, 'diagrams-altered')
    return model, ds, want


def change(c, kind, model, gs, table):
    """Other weights, as a training step would leave them."""
    w = [np.asarray(x) for x in models.weights(model)]
    before = run(model, [g.diag for g in gs])
    new = {s: c.np.uniform(size=np.shape(x) or None)
           for s, x in zip(model.symbols, w)}
    set_weights(model, kind, new) if kind in (
        'numpy', 'numpy_jit', 'tket') else inplace(model, new)
    got = run(model, [g.diag for g in gs])
    c.ev('weights_changed')
    follows(c, kind, gs, new, got, 'after-change')
    if c.p(.5):     # what a trainer does to the model it is given
        seed = c.int(0, 2 ** 31)
        np.random.seed(seed)
        torch.manual_seed(seed)
        model.initialise_weights()
        c.ev('initialised_again')
        drawn = dict(zip(model.symbols, models.weights(model)))
        follows(c, kind, gs, drawn, run(model, [g.diag for g in gs]),
                'initialised-again')
    set_weights(model, kind, table) if kind in (
        'numpy', 'numpy_jit', 'tket') else inplace(model, table)
    agree(c, kind, run(model, [g.diag for g in gs]), before, 'changed-back')


def follows(c, kind, gs, table, got, mech):
    """The predictions are those of the weights in the table."""
    want = direct(kind, gs, table)
    for x, y, (_, norm) in zip(got, want, want_norms(gs, table, kind)):
        if norm > 1e-3:
            c.check(close(x, y, tol(kind)), mech,
                    lambda: f'{kind}: {x} != {y}')


def inplace(model, table):
    with torch.no_grad():
        vals = [torch.as_tensor(np.asarray(table[s], dtype=np.float32))
                for s in model.symbols]
        if isinstance(model.weights, torch.nn.ParameterList):
            for w, v in zip(model.weights, vals):
                w.copy_(v.reshape(w.shape))
        else:
            model.weights.copy_(torch.stack([v.reshape(()) for v in vals]))


def substituted(g, table):
    syms = sorted(g.diag.free_symbols, key=lambda s: (
        s.name, s.directed_dom, s.directed_cod))
    vals = [float(table[s]) if s.size == 1 and np.ndim(table[s]) == 0
            else np.asarray(table[s]) for s in syms]
    return g.diag.lambdify(*syms)(*vals)


def want_norms(gs, table, kind):
    out = []
    for g in gs:
        d = substituted(g, table)
        a = np.asarray(d.eval(dtype=np.float64) if kind == 'pytorch'
                       else d.eval())
        out.append((a, float((np.abs(a) ** 2).sum())
                    if kind != 'pytorch' else 1.))
    return out


def direct(kind, gs, table):
    """The prediction, by direct evaluation."""
    out = []
    for a, n in want_norms(gs, table, kind):
        if kind in ('pytorch', 'pennylane_states'):
            out.append(a)
        elif kind == 'pennylane_unit':
            out.append(a / np.sqrt(n))
        elif kind == 'pennylane_raw':
            out.append(np.abs(a) ** 2)
        else:
            p = np.abs(a) ** 2
            out.append(p / p.sum() if p.shape else p)
    return np.array(out)


def family(kind):
    def fn(c):
        c.ev(kind)
        n = c.choice([1, 2, 3, 4])
        gs, table = batch(c, kind, n)
        c.note(kind=kind)
        c.sig(kind)
        if kind == 'pytorch':
            if gs[0].ref.arr.ndim == 0:
                c.ev('scalar_out')
        elif gs[0].ref.pure.arr.ndim == 2:
            c.ev('two_qubits')
        if kind != 'pytorch':
            if any(o[0] == 'bra' for g in gs for o in g.ops):
                c.ev('post_selected')
            if any(models.total(g) < .2 for g in gs):
                c.ev('small_norm')
        model, ds, want = predict(c, kind, gs, table)
        change(c, kind, model, gs, table)
    return fn


def fam_circuits(c):
    """Custom boxes, nested controls, mixed circuits and closed ones."""
    kind = c.choice(['numpy', 'numpy', 'numpy_jit', 'torch_quantum'])
    what = c.choice(['any', 'any', 'mixed'])
    k = c.choice([0, 1, 1, 2])
    gs, table = circuits(c, c.int(1, 3), k, what)
    c.note(kind=kind, what=what)
    c.sig(kind, what)
    c.ev(what)
    if k == 0:
        c.ev('scalar_out')
        if gs[0].diag.is_mixed:
            c.ev('closed_mixed')
    predict(c, kind, gs, table)


def fam_rare(c):
    """Post-selection that hardly ever succeeds: the prediction is still
    the distribution over what remains."""
    kind = c.choice(['numpy', 'numpy', 'numpy_jit', 'torch_quantum',
                     'pennylane'])
    gs, table = circuits(c, c.int(1, 3), c.choice([1, 2]), 'shared')
    for g in gs:
        low = 10 ** c.rng.uniform(-7, -3)
        while models.total(g) > low:
            # a qubit found far from where it was put
            p = c.rng.uniform(.01, .05)
            if models.total(g) * np.sin(np.pi * p) ** 2 < 2e-8:
                # the total is cut off at 1e-9
                break
            pos = c.int(0, len(g.types))
            g.add(Q.Ket(0) >> Q.Ry(p) >> Q.Bra(1), pos)
            g.ref.scale(np.sin(np.pi * p))
        g.ops.append(('rare', round(np.log10(low))))
    c.note(kind=kind)
    c.sig(kind, 'rare')
    c.ev('rare')
    predict(c, kind, gs, table)


def fam_backends(c):
    """Every kind of model agrees on the same circuits and weights."""
    gs, table = circuits(c, c.int(1, 3), c.choice([1, 2]), 'shared')
    ds = [g.diag for g in gs]
    for kind in ['numpy', 'numpy_jit', 'tket', 'torch_quantum', 'pennylane']:
        model = set_weights(make(kind, ds), kind, table)
        agree(c, kind, run(model, ds), expected(kind, gs), 'backends')
    c.ev('jit_equals')


def fam_history(c):
    """One model serving many batches, with its weights changing."""
    kind = c.choice(['numpy', 'numpy_jit', 'torch_quantum', 'pytorch',
                     'tket', 'pennylane'])
    table = {}
    k = [2] if kind == 'pytorch' else 1
    gs, table = batch(c, kind, 4, table, k=k)
    model = set_weights(make(kind, [g.diag for g in gs]), kind, table)
    c.note(kind=kind)
    c.sig(kind, 'history')
    for _ in range(c.int(2, 4)):
        some = [c.choice(gs) for _ in range(c.int(1, 4))]
        agree(c, kind, run(model, [g.diag for g in some]),
              expected(kind, some), 'history')
        if isinstance(model, torch.nn.Module) and c.p(.5):
            # a training step elsewhere leaves no trace but the weights
            out = model([gs[0].diag])
            out.abs().sum().backward()
            model.zero_grad()
            c.ev('retrained')
        fresh = tuple([g.diag for g in some])
        c.ev('lists')
        agree(c, kind, run(model, list(fresh)), expected(kind, some),
              'history-copy')
    # a symbol the model does not have is refused
    if kind != 'pennylane':
        c.ev('unknown_symbol')
        alien, _ = batch(c, kind, 1, {}, k=k) if kind == 'pytorch' else \
            circuits(c, 1, 1, 'shared', {}, ['stranger'])
        if set(alien[0].used) - set(model.symbols):
            c.raises(Exception, lambda: model([alien[0].diag]),
                     mechanism='unknown-symbol')


def fam_gradient(c):
    """Differentiable models give the true gradient."""
    kind = c.choice(['pytorch', 'torch_quantum', 'pennylane'])
    gs, table = batch(c, kind, c.int(1, 2))
    ds = [g.diag for g in gs]
    model = set_weights(make(kind, ds), kind, table)
    c.note(kind=kind)
    c.sig(kind, 'gradient')
    out = model(ds)
    mix = c.np.normal(size=tuple(out.shape))
    (out * torch.as_tensor(mix, dtype=out.dtype)).sum().backward()
    ws = list(model.parameters())
    flat = np.concatenate([(np.zeros(w.shape) if w.grad is None else
                            w.grad.detach().numpy()).reshape(-1)
                           for w in ws])
    if kind == 'torch_quantum':
        order = [(s, 0) for s in model.symbols]
    else:
        order = [(s, i) for s in model.symbols
                 for i in range(np.size(table[s]))]
    c.check(len(order) == len(flat), 'parameters',
            lambda: f'{len(order)} != {len(flat)}')

    def f(t):
        return float((direct(kind, gs, t) * mix).sum())
    # parameters of tensors are rounded to single precision
    h = .02 if kind == 'pytorch' else 1e-3

    def at(s, i, e):
        v = np.array(table[s], dtype=float)
        v.reshape(-1)[i] += e
        return f({**table, s: v if v.ndim else float(v)})
    for j in c.rng.sample(range(len(order)), min(4, len(order))):
        s, i = order[j]
        want = (8 * (at(s, i, h) - at(s, i, -h))
                - at(s, i, 2 * h) + at(s, i, -2 * h)) / (12 * h)
        c.check(abs(flat[j] - want) <= 2e-3 * (1 + abs(want)), 'gradient',
                lambda: f'{kind} {s} {flat[j]} != {want}')
    c.ev('gradient')


FAMILIES = [Family(k, family(k), n) for k, n in [
    ('numpy', 120), ('numpy_jit', 14), ('tket', 60), ('pytorch', 120),
    ('torch_quantum', 100), ('pennylane', 40), ('pennylane_states', 25),
    ('pennylane_unit', 25), ('pennylane_raw', 25)]] + [
    Family('circuits', fam_circuits, 240),
    Family('rare', fam_rare, 60),
    Family('backends', fam_backends, 16),
    Family('history', fam_history, 40),
    Family('gradient', fam_gradient, 60),
]
