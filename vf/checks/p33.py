"""P33 Switching the numerical backend is scoped and leak-free."""
import contextlib
import io
import os
import tempfile
import warnings

os.environ.setdefault('JAX_PLATFORMS', 'cpu')

import numpy as np
import tensornetwork as tn
import torch
from tensornetwork.backend_contextmanager import get_default_backend

from lambeq import (Dataset, NumpyModel, PytorchModel, PytorchQuantumModel)
from lambeq.backend import numerical_backend as nb
from lambeq.backend.numerical_backend import (backend, get_backend,
                                              set_backend)
from lambeq.backend.quantum import H, Ket, Rx
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Cup, Diagram, Dim, Id
from vf import train as vt
from vf.checks import p19, p20
from vf.core import Family
from vf.tsim import close

RULE = 'distinct sequences of switches, exits and evaluations'
REQUIRED = ['enter', 'enter_current', 'leave', 'exception', 'base_exception',
            'caught_inside', 'set', 'set_inside', 'unknown', 'unavailable',
            'deep', 'early_return', 'generator_closed', 'exit_stack',
            'decorated', 'evaluated', 'rotation', 'dataset', 'recursion',
            'numpy_model', 'jit_model', 'pytorch_model', 'torch_quantum',
            'model_failed', 'trainer', 'trainer_failed', 'loss_saw',
            'same_tensor', 'same_circuit', 'same_mixed', 'numpy', 'jax',
            'pytorch', 'nested_same', 'raised_entering']
NAMES = ['numpy', 'jax', 'pytorch']
HOME = {'numpy': 'numpy', 'jax': 'jax', 'pytorch': 'torch'}


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def worker_setup():
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)


def kind(x):
    if isinstance(x, torch.Tensor):
        return 'pytorch'
    if isinstance(x, (np.ndarray, np.generic)):
        return 'numpy'
    return 'jax' if 'jax' in type(x).__module__ else type(x).__module__


PLAIN = (Box('a', Dim(1), Dim(2, 3), np.arange(6.).reshape(2, 3))
         >> Box('b', Dim(2), Dim(3), np.arange(6.)) @ Id(Dim(3))
         >> Cup(Dim(3), Dim(3)))
PLAIN_VALUE = float(np.einsum('ij,ij', np.arange(6.).reshape(2, 3).T
                              @ np.arange(6.).reshape(2, 3), np.eye(3)))


def clean(c, mech, want='numpy'):
    c.eq(get_backend().name, want, mech)
    c.eq(get_default_backend(), 'numpy', mech + '-tensornetwork')


class Walk:
    """A random nest of switches; `stack` is what should be active."""

    def __init__(self, c):
        self.c = c
        self.stack = ['numpy']
        self.events = []
        self.budget = c.int(4, 18)
        self.depth = 0

    def log(self, *e):
        self.events.append(e)
        self.c.ev(e[0])

    def look(self, mech):
        self.c.eq(get_backend().name, self.stack[-1], mech,
                  f'after {self.events}')

    def body(self):
        c = self.c
        for _ in range(c.int(1, 4)):
            if self.budget <= 0:
                return
            self.budget -= 1
            self.step()
            self.look('active-after-step')

    def step(self):
        c = self.c
        getattr(self, c.choice(
            ['switch'] * 6 + ['set', 'bad', 'evaluate', 'stack_of',
                              'generator', 'decorated', 'dataset', 'deep',
                              'returning']))()

    def name(self):
        return self.c.choice(NAMES)

    def inside(self, got):
        c = self.c
        c.eq(got.name, self.stack[-1], 'handed-backend')
        x = got.array([1., 2.])
        c.eq(kind(x), self.stack[-1], 'handed-array')
        c.check(got is get_backend() or got.name == get_backend().name,
                'two-backends')
        self.look('active-inside')

    def switch(self):
        c = self.c
        name = self.name() if c.p(.8) else None
        to = name or self.stack[-1]
        if to == self.stack[-1]:
            c.ev('nested_same')
        how = c.choice(['ok', 'ok', 'ok', 'exception', 'base_exception',
                        'caught_inside'])
        before = list(self.stack)
        self.log('enter' if name else 'enter_current', to)
        error = {'exception': Boom, 'base_exception': Halt}.get(how)
        try:
            with (backend(name) if name or c.p(.5) else backend()) as got:
                self.stack.append(to)
                self.inside(got)
                self.body()
                self.look('active-before-leaving')
                if how == 'caught_inside':
                    try:
                        raise Boom
                    except Boom:
                        self.log('caught_inside')
                        self.look('active-after-caught')
                if error:
                    self.log(how)
                    raise error
            c.check(error is None, 'exception-swallowed')
        except (Boom, Halt) as e:
            c.check(error is not None and type(e) is error,
                    'exception-changed', lambda: repr(e))
        self.stack = before
        self.log('leave')
        self.look('active-after-leaving')

    def set(self):
        """Replaces the innermost choice, for as long as that is active."""
        name = self.name()
        self.log('set', name)
        if len(self.stack) > 1:
            self.c.ev('set_inside')
        set_backend(name)
        self.stack[-1] = name
        self.look('active-after-set')

    def bad(self):
        c = self.c
        name = c.choice(['nonsense', 'NumPy', 'torch', 'tensorflow'])
        self.log('unavailable' if name == 'tensorflow' else 'unknown', name)
        try:
            with backend(name):
                if name != 'tensorflow':
                    c.fail('unknown-accepted', name)
        except (KeyError, ValueError, ImportError):
            c.ev('raised_entering')
        self.look('active-after-refusal')

    def evaluate(self):
        c = self.c
        self.log('evaluated')
        got = PLAIN.eval()
        c.eq(kind(got), self.stack[-1], 'result-kind')
        c.close(np.asarray(got), PLAIN_VALUE, 'value', rtol=1e-5)
        if self.stack[-1] != 'pytorch':
            c.ev('rotation')
            got = (Ket(0) >> H >> Rx(.25)).eval()
            c.eq(kind(got), self.stack[-1], 'result-kind')
            u = np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2)
            c.close(np.asarray(got), u @ np.ones(2) / np.sqrt(2), 'value',
                    atol=1e-5)

    def dataset(self):
        c = self.c
        self.log('dataset')
        ds = Dataset([PLAIN] * 3, [[0., 1.], [1., 0.], [1., 0.]],
                     batch_size=2)
        for _, y in ds:
            c.eq(kind(y), self.stack[-1], 'dataset-kind')
            self.look('active-in-iteration')
        c.eq(kind(ds[1][1]), self.stack[-1], 'dataset-kind')

    def stack_of(self):
        c = self.c
        names = [self.name() for _ in range(c.int(2, 4))]
        before = list(self.stack)
        self.log('exit_stack', *names)
        boom = c.p(.4)
        try:
            with contextlib.ExitStack() as s:
                for n in names:
                    got = s.enter_context(backend(n))
                    self.stack.append(n)
                    self.inside(got)
                if boom:
                    raise Boom
                self.body()
        except Boom:
            pass
        self.stack = before

    def generator(self):
        """A generator holding a switch is closed half-way."""
        c = self.c
        name = self.name()
        self.log('generator_closed', name)

        def gen():
            with backend(name):
                for i in range(3):
                    yield get_backend().name
        g = gen()
        c.eq(next(g), name, 'active-in-generator')
        if c.p(.5):
            c.eq(next(g), name, 'active-in-generator')
        if c.p(.5):
            g.close()
        else:
            try:
                g.throw(Boom())
            except Boom:
                pass

    def decorated(self):
        c = self.c
        name = self.name()
        self.log('decorated', name)

        @backend(name)
        def f(n):
            if n:
                return f(n - 1)
            return get_backend().name
        for _ in range(2):
            c.eq(f(0), name, 'active-in-decorated')
            self.look('active-after-decorated')
        c.eq(f(c.int(1, 5)), name, 'active-in-decorated')
        c.ev('recursion')

    def deep(self):
        c = self.c
        self.log('deep')
        n = c.int(20, 120)
        boom = c.p(.5)

        def go(k):
            if not k:
                if boom:
                    raise Boom
                return
            name = NAMES[k % 3]
            with backend(name):
                try:
                    go(k - 1)
                finally:
                    c.eq(get_backend().name, name, 'active-unwinding')
        try:
            go(n)
        except Boom:
            pass

    def returning(self):
        name = self.name()
        self.log('early_return', name)

        def f():
            for _ in range(3):
                with backend(name):
                    return get_backend().name
        self.c.eq(f(), name, 'active-inside')
        for i in range(3):
            with backend(name):
                if i == 1:
                    break
                continue


def fam_walk(c):
    clean(c, 'dirty-before')
    w = Walk(c)
    try:
        for _ in range(3):
            w.body()
        base = w.stack[0]
        c.eq(get_backend().name, base, 'active-at-end')
        c.note(events=w.events)
        c.sig(tuple(w.events))
        c.sample(str(w.events))
    finally:
        set_backend('numpy')


def words(n, fun):
    return [fun(f'w{i}') for i in range(n)]


def fam_models(c):
    """Calls that switch by themselves, failing or not, within switches."""
    which = c.choice(['numpy_model', 'jit_model', 'pytorch_model',
                      'torch_quantum'])
    outer = (c.choice(NAMES) if which in ('pytorch_model', 'torch_quantum')
             else c.choice(['numpy', 'numpy', 'jax']))
    fails = c.p(.5)
    c.ev(which)
    c.note(which=which, outer=outer, fails=fails)
    n = c.int(1, 3)
    if which == 'pytorch_model':
        ds = words(n, lambda w: Box(w, Dim(1), Dim(2), Symbol(w, 1, 2)))
        bad = Box('x', Dim(1), Dim(2), Symbol('unknown', 1, 2))
        if c.p(.5):
            # fails within the contraction: unequal result shapes
            bad = Box('x', Dim(1), Dim(3), Symbol('w0', 1, 2))
        m = PytorchModel.from_diagrams(ds)
    else:
        ds = words(n, lambda w: Ket(0) >> Rx(Symbol(w)))
        bad = c.choice([Ket(0) >> Rx(Symbol('unknown')),
                        PLAIN, 3, Ket(0, 0)])
        cls = {'numpy_model': NumpyModel, 'jit_model': NumpyModel,
               'torch_quantum': PytorchQuantumModel}[which]
        m = cls.from_diagrams(ds, **({'use_jit': True}
                                     if which == 'jit_model' else {}))
    m.initialise_weights()
    c.sig(which, outer, fails, n)
    for _ in range(c.int(1, 3)):
        batch = list(ds)
        if fails:
            batch.insert(c.int(0, n), bad)
        try:
            with backend(outer):
                try:
                    out = m.get_diagram_output(batch)
                    if not fails:
                        c.eq(len(out), n, 'model-result')
                        if which in ('pytorch_model', 'torch_quantum'):
                            c.eq(kind(out), 'pytorch', 'model-result-kind')
                        elif which == 'jit_model':
                            c.eq(kind(out), 'jax', 'model-result-kind')
                finally:
                    c.eq(get_backend().name, outer, 'model-leaked')
                    c.eq(get_default_backend(), 'numpy',
                         'model-leaked-tensornetwork')
        except Exception as e:
            if not fails:
                raise
            c.ev('model_failed')
        clean(c, 'leaked')


def fam_trainer(c):
    cfg = vt.Cfg(c, ['toy', 'numpy', 'pytorch', 'torch_quantum'],
                 epochs=c.int(1, 2))
    want = 'pytorch' if cfg.torch else 'numpy'
    outer = c.choice(NAMES) if cfg.torch else 'numpy'
    boom = c.p(.5)
    act = c.choice(['boom', 'halt', 'stop'])

    def fail():
        raise {'boom': Boom, 'halt': Halt, 'stop': vt.Stop}[act]
    log = vt.Log(cfg, boom_at=c.int(0, 3) if boom else None, act=fail)
    seen = []
    inner = log.loss

    def loss(y_hat, y):
        seen.append((get_backend().name, kind(y)))
        return inner(y_hat, y)
    log.loss = loss
    c.ev('trainer')
    with tempfile.TemporaryDirectory(prefix='vf-p33-') as tmp:
        vt.seeds(1)
        try:
            with backend(outer):
                t = vt.trainer(cfg, log, cfg.epochs, tmp)
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        vt.fit(cfg, log, t)
                finally:
                    c.eq(get_backend().name, outer, 'trainer-leaked')
                    c.eq(get_default_backend(), 'numpy',
                         'trainer-leaked-tensornetwork')
        except (Boom, Halt, vt.Stop):
            c.ev('trainer_failed')
    c.check(seen, 'no-loss')
    c.ev('loss_saw')
    c.eq(set(seen), {(want, want)}, 'active-in-training')
    clean(c, 'leaked')


def fam_same(c):
    """One diagram evaluated in every backend."""
    what = c.choice(['same_tensor', 'same_circuit', 'same_mixed'])
    c.ev(what)
    if what == 'same_tensor':
        g = p20.rand_diagram(c, c.int(1, 6))
        if any(np.iscomplexobj(b.data) for b in g.diag.boxes
               if hasattr(b, 'data')) and c.p(.5):
            g = p20.rand_diagram(c, c.int(1, 6), real=True)
        want, d = np.asarray(g.ref.arr), g.diag
        c.note(ins=g.ref.ins, ops=g.ops)
        c.sig(g.ref.ins, tuple(g.ops))
        kw = {}
    else:
        g = p19.build(c, what == 'same_mixed', c.int(1, 6))
        d = g.diag
        mixed = what == 'same_mixed'
        want = np.asarray(g.ref.mixed_array() if mixed else g.ref.pure.arr)
        g.note()
        kw = {'mixed': True} if mixed else {}
    if want.size > 4 ** 6:
        c.skip('too big')

    def unify(nodes, edges):
        # the number types of PyTorch have to agree
        t = torch.bool
        for n in nodes:
            t = torch.promote_types(t, n.tensor.dtype)
        for n in nodes:
            n.tensor = n.tensor.to(t)
        return tn.contractors.auto(nodes, edges)
    order = list(NAMES)
    c.rng.shuffle(order)
    for name in order:
        c.ev(name)
        with backend(name), tn.DefaultBackend(name):
            if name == 'pytorch':
                got = d.eval(contractor=unify, **kw)
            else:
                got = d.eval(**kw)
        c.eq(kind(got), name, 'result-kind')
        if name == 'pytorch':
            got = got.resolve_conj()
        got = np.asarray(got)
        c.check(got.shape == want.shape and close(got, want, 2e-4),
                f'value-{name}', lambda: f'{got} != {want}')
        clean(c, 'leaked')


FAMILIES = [
    Family('walk', fam_walk, 500),
    Family('models', fam_models, 160),
    Family('trainer', fam_trainer, 100),
    Family('same', fam_same, 240, 2400),
]
