"""P27 Saved models load back to the same model."""
import os
import pathlib
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import torch

from vf import models
from vf.core import Family
from vf.models import (batch, circuits, classes, expected, make, run,
                       set_weights, tensors, weights)
from vf.tsim import close

RULE = 'distinct (kind of model, circuits or tensors) saved and loaded'
KINDS = models.KINDS + ['pennylane_unit', 'pennylane_raw']
REQUIRED = KINDS + [
    'fresh_class', 'fresh_load', 'into_other', 'into_other_used',
    'twice', 'order', 'independent', 'trained', 'overwritten', 'shifted', 'process', 'no_weights', 'no_symbols', 'few_weights',
    'saved_uninitialised', 'used_before', 'unused_before', 'initialised',
    'alien', 'own_order', 'hybrid', 'hybrid_trained',
    'running_statistics']
TORCH = ('pytorch', 'torch_quantum', 'pennylane', 'pennylane_states',
         'pennylane_unit', 'pennylane_raw')


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)


def tol(kind):
    return 1e-9 if kind in ('numpy', 'tket') else 1e-5


def names(model):
    return [(s.name, s.directed_dom, s.directed_cod, s.scale)
            for s in model.symbols]


def same(c, kind, a, b, mech):
    c.eq(names(a), names(b), mech + '-symbols')
    wa, wb = weights(a), weights(b)
    c.eq(len(wa), len(wb), mech + '-weights')
    c.check(all(x.shape == y.shape and (x == y).all()
                for x, y in zip(wa, wb)), mech + '-weights',
            lambda: f'{kind}: {wa} != {wb}')


def predicts(c, kind, model, ds, want, mech):
    got = run(model, ds)
    c.check(got.shape == want.shape and close(got, want, tol(kind)), mech,
            lambda: f'{kind}: {got} != {want}')


def extra(c, kind, gs, table, name):
    """A diagram like the others with a symbol that sorts elsewhere."""
    for _ in range(20):
        if kind == 'pytorch':
            g = tensors(c, 1, table, list(gs[0].ref.arr.shape))[0][0]
            return g
        k = len(gs[0].types)
        g = circuits(c, 1, k, 'shared', table, [name])[0][0]
        return g


def fresh(kind, use_args=True):
    cls, args = classes()[kind]
    if kind.startswith('pennylane') and not use_args:
        args = {}
    model = cls(**args)
    model.vf_kind = kind
    return model


def step(kind, model, ds, mix):
    """One step of gradient descent."""
    opt = torch.optim.SGD(model.parameters(), lr=.05)
    opt.zero_grad()
    out = model(ds)
    loss = (out * torch.as_tensor(mix, dtype=out.dtype)).sum().abs()
    loss.backward()
    opt.step()


def family(kind):
    def fn(c):
        c.ev(kind)
        gs, table = batch(c, kind, c.int(1, 3))
        ds = [g.diag for g in gs]
        last = extra(c, kind, gs, table, 'zzlast')
        every = gs + [last]
        c.note(kind=kind)
        c.sig(kind)
        # the order of diagrams does not matter
        build = [g.diag for g in every]
        c.rng.shuffle(build)
        model = make(kind, build)
        c.rng.shuffle(build)
        twin = make(kind, build + [c.choice(build)])
        c.eq(names(model), names(twin), 'order')
        c.check(len(set(model.symbols)) == len(model.symbols), 'repeated',
                lambda: repr(model.symbols))
        c.ev('order')
        if c.p(.5):
            model.initialise_weights()
            reorder(c, model)
            table = {s: np.array(w.data).reshape(np.shape(table[s]))
                     for s, w in zip(model.symbols, weights(model))}
            c.ev('initialised')
            want = run(model, [g.diag for g in every])
        else:
            set_weights(model, kind, table)
            reorder(c, model)
            want = expected(kind, every)
        if c.p(.5):
            run(model, ds)
            c.ev('used_before')
        else:
            c.ev('unused_before')
        w0, n0 = weights(model), names(model)
        with tempfile.TemporaryDirectory() as tmp:
            path = pathlib.Path(tmp) / 'model.lt'
            if c.p(.3):
                path.write_bytes(b'older model, longer than nothing' * 9)
                c.ev('overwritten')
            model.save(path if c.p(.5) else str(path))
            # saving changes nothing
            c.eq(names(model), n0, 'saving-symbols')
            c.check(all((x == y).all() for x, y in zip(weights(model), w0)),
                    'saving-weights')
            predicts(c, kind, model, [g.diag for g in every], want,
                     'prediction-after-saving')
            loads(c, kind, path, model, gs, every, table, want)
    return fn


def reorder(c, model):
    """Symbols in an order of the user's own (or of an older version)."""
    if c.p(.7):
        return
    c.ev('own_order')
    order = list(range(len(model.symbols)))
    c.rng.shuffle(order)
    model.symbols = [model.symbols[i] for i in order]
    if isinstance(model.weights, torch.nn.ParameterList):
        model.weights = torch.nn.ParameterList(
            [model.weights[i] for i in order])
    elif isinstance(model.weights, torch.nn.Parameter):
        model.weights = torch.nn.Parameter(model.weights.data[order])
    else:
        model.weights = model.weights[order]


def loads(c, kind, path, model, gs, every, table, want):
    ds = [g.diag for g in every]
    how = c.choice(['fresh_class', 'fresh_load', 'into_other',
                    'into_other_used', 'into_other_used'])
    c.ev(how)
    if how == 'fresh_class':
        cls, args = classes()[kind]
        if kind.startswith('pennylane'):
            args = {}
        back = cls.from_checkpoint(path, **args)
        back.vf_kind = kind
    elif how == 'fresh_load':
        back = fresh(kind, c.p(.5))
        back.load(path)
    else:
        # a model of the same diagrams and one more, whose symbols shift
        t2 = dict(table)
        first = extra(c, kind, gs, t2, '0first')
        t2 = {s: c.np.uniform(size=np.shape(v)) for s, v in t2.items()}
        back = make(kind, [g.diag for g in gs + [first]])
        set_weights(back, kind, t2)
        if names(back) != names(model):
            c.ev('shifted')
        if how == 'into_other_used':
            predicts(c, kind, back, [g.diag for g in gs], np.array(
                [x for x in direct(kind, gs, t2)]), 'other')
        back.load(str(path))
    same(c, kind, model, back, 'loaded')
    predicts(c, kind, back, ds, want, 'prediction-loaded')
    i = c.int(0, len(ds) - 1)
    predicts(c, kind, back, [ds[i]], want[i:i + 1], 'prediction-one')
    # the two models are independent
    if c.p(.5):
        scramble(c, kind, back)
        predicts(c, kind, model, ds, want, 'not-independent')
        back = fresh(kind)
        back.load(path)
    else:
        scramble(c, kind, model)
        predicts(c, kind, back, ds, want, 'not-independent')
        set_weights(model, kind, table)
    c.ev('independent')
    # saving what was loaded
    again = path.parent / 'again.lt'
    back.save(again)
    third = fresh(kind)
    third.load(again)
    c.ev('twice')
    same(c, kind, back, third, 'again')
    predicts(c, kind, third, ds, want, 'prediction-again')
    if kind in TORCH:
        # training a loaded model is training the model
        mix = c.np.normal(size=want.shape)
        for m in (model, back):
            for _ in range(2):
                step(kind, m, ds, mix)
        c.ev('trained')
        a, b = weights(model), weights(back)
        c.check(all(np.allclose(x, y, atol=1e-5, equal_nan=True)
                    for x, y in zip(a, b)), 'trained',
                lambda: f'{kind}: {a} != {b}')


def direct(kind, gs, table):
    from vf.checks.p30 import direct
    return direct(kind, gs, table)


def scramble(c, kind, model):
    """Alter the weights in place."""
    if isinstance(model.weights, torch.nn.ParameterList):
        with torch.no_grad():
            for w in model.weights:
                w.add_(.3)
    elif isinstance(model.weights, torch.Tensor):
        with torch.no_grad():
            model.weights.add_(.3)
    else:
        model.weights += .3


def headed(kind, size):
    """A model of the kind with layers of its own on top."""
    cls, args = classes()[kind]

    class Headed(cls):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.lin = torch.nn.Linear(size, 3)
            self.norm = torch.nn.BatchNorm1d(3)
            self.gain = torch.nn.Parameter(torch.ones(3))

        def forward(self, x):
            out = self.get_diagram_output(x)
            out = out.reshape(len(x), size).to(self.lin.weight.dtype)
            return self.norm(self.lin(out)) * self.gain

    return Headed, args


def fam_hybrid(c):
    """Layers of the user's own are saved and loaded with the model."""
    kind = c.choice(['pytorch', 'torch_quantum', 'pennylane'])
    c.ev('hybrid')
    gs, table = batch(c, kind, c.int(2, 3))
    ds = [g.diag for g in gs]
    c.note(kind=kind)
    c.sig(kind, 'hybrid')
    size = int(np.prod(expected(kind, gs)[0].shape, dtype=int))
    cls, args = headed(kind, size)
    model = cls.from_diagrams(ds, **args)
    if c.p(.5):
        model.initialise_weights()
    set_weights(model, kind, table)
    with torch.no_grad():
        for p in [model.gain, *model.lin.parameters(),
                  *model.norm.parameters()]:
            p.copy_(torch.as_tensor(c.np.normal(size=tuple(p.shape))))
    mix = c.np.normal(size=(len(ds), 3))
    if c.p(.7):
        for _ in range(c.int(1, 3)):
            step(kind, model, ds, mix)
        c.ev('running_statistics')
    model.eval()
    want = run(model, ds)
    kept = {k: v.clone() for k, v in model.state_dict().items()}

    def held(m, mech):
        got = m.state_dict()
        c.eq(sorted(got), sorted(kept), mech + '-state')
        for k, v in kept.items():
            c.check(got[k].shape == v.shape and torch.equal(got[k], v),
                    mech + '-state', lambda: f'{kind} {k}: {got[k]} != {v}')
        m.eval()
        predicts(c, kind, m, ds, want, mech)

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'model.lt')
        model.save(path)
        held(model, 'hybrid-saving')
        how = c.choice(['checkpoint', 'fresh', 'used'])
        if how == 'checkpoint':
            back = cls.from_checkpoint(path, **args)
        else:
            back = (cls.from_diagrams(ds, **args) if how == 'used'
                    else cls(**args))
            if how == 'used':
                back.initialise_weights()
                step(kind, back, ds, mix)
            back.load(path)
        held(back, 'hybrid-loaded')
        c.eq(names(model), names(back), 'hybrid-symbols')
        # training goes on from there, and for one of them alone
        for m in (model, back):
            m.train()
            step(kind, m, ds, mix)
            if m is model:
                held(back, 'hybrid-independent')
        a, b = model.state_dict(), back.state_dict()
        for k in a:
            c.check(torch.allclose(a[k].double(), b[k].double(), atol=1e-4,
                                   equal_nan=True), 'hybrid-trained',
                    lambda: f'{kind} {k}: {a[k]} != {b[k]}')
        c.ev('hybrid_trained')


def fam_refuse(c):
    kind = c.choice(KINDS)
    gs, table = batch(c, kind, c.int(1, 3))
    ds = [g.diag for g in gs]
    c.note(kind=kind)
    c.sig(kind, 'refuse')
    model = make(kind, ds)
    c.ev('no_weights')
    c.raises(Exception, lambda: model(ds), mechanism='no-weights')
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'm')
        try:
            model.save(path)
        except Exception:
            pass
        else:
            back = fresh(kind)
            try:
                back.load(path)
            except Exception:
                pass
            else:
                c.raises(Exception, lambda: back(ds),
                         mechanism='no-weights-loaded')
        c.ev('saved_uninitialised')
    empty = fresh(kind)
    c.raises(Exception, lambda: empty(ds), mechanism='no-symbols')
    c.raises(ValueError, empty.initialise_weights, mechanism='no-symbols')
    c.ev('no_symbols')
    set_weights(model, kind, table)
    predicts(c, kind, model, ds, expected(kind, gs), 'prediction')
    alien = extra(c, kind, gs, {}, 'stranger')
    if set(alien.used) - set(model.symbols):
        c.raises(Exception, lambda: model(ds + [alien.diag]),
                 mechanism='alien')
        c.ev('alien')
    if len(model.symbols) > 1 and not kind.startswith('pennylane'):
        lacks = model.symbols[-1]
        hit = [g for g in gs if lacks in g.used]
        few = make(kind, ds)
        set_weights(few, kind, table)
        w = list(few.weights)[:-1]
        if kind == 'pytorch':
            few.weights = torch.nn.ParameterList(w)
        elif kind == 'torch_quantum':
            few.weights = torch.nn.Parameter(few.weights.detach()[:-1])
        else:
            few.weights = np.array(w)
        c.raises(Exception, lambda: few([g.diag for g in hit]),
                 mechanism='few-weights')
        c.ev('few_weights')


CHILD = r'''
import pickle, sys, warnings
warnings.simplefilter('ignore')
import numpy as np
sys.path.insert(0, sys.argv[1])
from vf import models
import torch
torch.set_num_threads(1)
from vf.models import classes, run
from vf.checks.p27 import names
out = []
for kind, path, blob in pickle.load(open(sys.argv[2], 'rb')):
    ds = pickle.loads(blob)
    cls, args = classes()[kind]
    try:
        m = cls.from_checkpoint(path, **args)
        m.vf_kind = kind
        out.append((names(m), models.weights(m), run(m, ds)))
    except Exception as e:
        import traceback
        out.append(traceback.format_exc())
pickle.dump(out, open(sys.argv[2] + '.out', 'wb'))
'''


def fam_process(c):
    """Models loaded in a fresh process."""
    here = pathlib.Path(__file__).resolve().parents[2]
    jobs, wants = [], []
    c.sig('process')
    with tempfile.TemporaryDirectory() as tmp:
        for i, kind in enumerate(KINDS):
            gs, table = batch(c, kind, 2)
            ds = [g.diag for g in gs]
            model = set_weights(make(kind, ds), kind, table)
            path = os.path.join(tmp, f'model{i}')
            model.save(path)
            jobs.append((kind, path, pickle.dumps(ds)))
            wants.append((names(model), weights(model), expected(kind, gs)))
        plan = os.path.join(tmp, 'plan')
        with open(plan, 'wb') as f:
            pickle.dump(jobs, f)
        env = {**os.environ, 'PYTHONHASHSEED': str(c.int(1, 10**6)),
               'OMP_NUM_THREADS': '1'}
        r = subprocess.run([sys.executable, '-c', CHILD, str(here), plan],
                           env=env, capture_output=True, text=True,
                           cwd=here, timeout=90)
        if r.returncode:
            raise RuntimeError(r.stderr[-2000:])
        with open(plan + '.out', 'rb') as f:
            outs = pickle.load(f)
    c.ev('process')
    for (kind, _, _), got, want in zip(jobs, outs, wants):
        c.note(kind=kind)
        c.check(not isinstance(got, str), 'process-failed', lambda: got)
        c.eq(got[0], want[0], 'process-symbols')
        c.check(all((x == y).all() for x, y in zip(got[1], want[1])),
                'process-weights', lambda: f'{got[1]} {want[1]}')
        c.check(close(got[2], want[2], 2e-4), 'process-prediction',
                lambda: f'{kind}: {got[2]} != {want[2]}')


FAMILIES = [Family(k, family(k), n) for k, n in [
    ('numpy', 80), ('numpy_jit', 16), ('tket', 40), ('pytorch', 70),
    ('torch_quantum', 60), ('pennylane', 25), ('pennylane_states', 15),
    ('pennylane_unit', 15), ('pennylane_raw', 15)]] + [
    Family('hybrid', fam_hybrid, 60),
    Family('refuse', fam_refuse, 80),
    Family('process', fam_process, 3),
]
