"""Training of small models, recorded."""
import os
import random
import warnings

import numpy as np
import torch

from lambeq import (Dataset, NelderMeadOptimizer, NumpyModel, PennyLaneModel,
                    PytorchModel, PytorchQuantumModel, PytorchTrainer,
                    QuantumTrainer, RotosolveOptimizer, SPSAOptimizer)
from lambeq.backend.quantum import Ket, Ry, Rz
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Dim
from lambeq.training.checkpoint import Checkpoint
from lambeq.training.quantum_model import QuantumModel

NAMES = ['a', 'b', 'c', 'd', 'e']


class Toy(QuantumModel):
    """A model computed by a plain formula, the same for equal weights."""

    def get_diagram_output(self, diagrams):
        out = []
        place = {s: i for i, s in enumerate(self.symbols)}
        for d in diagrams:
            p = 1.
            for b in d.boxes:
                s = b.free_symbols
                if s:
                    i = place[next(iter(s))]
                    p *= .1 + .8 * np.cos(2 * np.pi * self.weights[i]
                                          + .3 * i) ** 2
            out.append([p, 1 - p])
        return np.array(out)

    def forward(self, x):
        return self.get_diagram_output(x)


class Net(PytorchModel):
    """A model with layers of its own, one of them random."""

    def __init__(self):
        super().__init__()
        self.lin = torch.nn.Linear(2, 2)
        self.drop = torch.nn.Dropout(.3)

    def forward(self, x):
        return self.drop(self.lin(self.get_diagram_output(x)))


def circuit(names):
    d = Ket(0)
    for i, n in enumerate(names):
        d = d >> (Rz if i % 2 and i < len(names) - 1 else Ry)(Symbol(n))
    return d


def tensor(names):
    d = Box('x', Dim(1), Dim(2), Symbol(names[0], 1, 2))
    for n in names[1:]:
        d = d >> Box('f', Dim(2), Dim(2), Symbol(n + '2', 2, 2))
    return d


MODELS = {'toy': (Toy, {}), 'numpy': (NumpyModel, {}),
          'pytorch': (PytorchModel, {}), 'net': (Net, {}),
          'torch_quantum': (PytorchQuantumModel, {}),
          'pennylane': (PennyLaneModel, {})}


class Boom(Exception):
    pass


class Stop(KeyboardInterrupt):
    pass


class Cfg:
    """One training configuration; everything is made afresh from it."""

    def __init__(self, c, kinds, **fixed):
        self.kind = c.choice(kinds)
        self.torch = self.kind not in ('toy', 'numpy')
        self.n = c.int(2, 7)
        self.n_val = c.choice([0, 1, 3, 4])
        self.batch = c.choice([0, 1, 2, 3])
        self.vbatch = c.choice([0, 2])
        self.words = [[c.choice(NAMES) for _ in range(c.int(1, 3))]
                      for _ in range(self.n + self.n_val)]
        if self.n_val:
            # validation needs no symbol of its own
            known = sorted({w for ws in self.words[:self.n] for w in ws})
            self.words[self.n:] = [[c.choice(known) for _ in ws]
                                   for ws in self.words[self.n:]]
        self.ys = [round(c.rng.random(), 3) for _ in self.words]
        self.shuffle = c.p(.6)
        self.seed = c.choice([None, 0, 1, c.int(2, 10**6)])
        self.evals = c.choice([0, 1, 2])
        self.on_train = c.p(.7)
        self.mode = c.choice(['epoch', 'epoch', 'step'])
        self.interval = c.choice([1, 1, 2, 3])
        self.opt = None
        self.args = {}
        if self.torch:
            self.opt, self.args = c.choice([
                (torch.optim.AdamW, {}), (torch.optim.Adam, {}),
                (torch.optim.SGD, {'momentum': .9}),
                (torch.optim.Adagrad, {}), (torch.optim.SGD, {})])
        else:
            self.opt = c.choice([SPSAOptimizer, SPSAOptimizer,
                                 NelderMeadOptimizer, RotosolveOptimizer])
            if self.kind == 'numpy' and self.opt is NelderMeadOptimizer:
                self.opt = SPSAOptimizer
            if self.opt is SPSAOptimizer:
                self.hyper = {'a': c.choice([.05, .3]), 'c': .06, 'A': 1}
            elif self.opt is NelderMeadOptimizer:
                self.hyper = {'adaptive': c.p(.4)}
                if c.p(.3):
                    # converges early
                    self.hyper |= {'xatol': .5, 'fatol': .5}
            else:
                self.hyper = {}
            self.bounded = self.opt is SPSAOptimizer and c.p(.2)
        self.crit = None
        self.stop = None
        self.minimize = True
        if self.n_val:
            self.stop = c.choice([None, 1, 2, 3])
            if self.evals and c.p(.6):
                self.crit = c.choice(['acc', 'mean'][:self.evals])
                self.minimize = c.p(.5)
            elif c.p(.2):
                self.minimize = False
        self.epochs = c.int(2, 7)
        self.verbose = c.choice(['suppress', 'text', 'progress'])
        self.every = c.choice([1, 1, 2, 3])
        self.timing = c.p(.3)
        for k, v in fixed.items():
            assert hasattr(self, k), k
            setattr(self, k, v)
        if self.seed is None and self.shuffle:
            self.seed = 5
        c.note(**{k: (getattr(v, '__name__', v))
                  for k, v in vars(self).items()})
        c.sig(tuple((k, str(v)) for k, v in sorted(vars(self).items())
                    if k not in ('ys', 'seed')))

    def diagrams(self):
        make = tensor if self.kind in ('pytorch', 'net') else circuit
        return [make(ws) for ws in self.words]

    def y(self, v, val):
        # targets of validation are larger by 2, to tell them apart
        v = v + 2 * val
        return [v, 3 - v]

    def datasets(self, log):
        ds = log.diagrams
        train = Dataset(ds[:self.n], [self.y(v, 0)
                                      for v in self.ys[:self.n]],
                        batch_size=self.batch, shuffle=self.shuffle)
        val = None
        if self.n_val:
            val = Dataset(ds[self.n:], [self.y(v, 1)
                                        for v in self.ys[self.n:]],
                          batch_size=self.vbatch, shuffle=False)
        return train, val


class Log:
    """What a run showed to its loss and metrics."""

    def __init__(self, cfg, boom_at=None, act=None):
        self.cfg = cfg
        self.diagrams = cfg.diagrams()
        self.losses = []
        self.metrics = []
        self.boom_at = boom_at
        self.act = act
        self.model = None

    @staticmethod
    def of(y_hat, y):
        y = np.asarray(y.detach() if isinstance(y, torch.Tensor) else y,
                       dtype=float)
        val = bool(y.reshape(-1)[0] > 1.5)
        return val, len(y)

    def loss(self, y_hat, y):
        val, n = self.of(y_hat, y)
        if self.boom_at is not None and len(self.losses) == self.boom_at:
            self.act()
        t = y[:, 0] - 2 * val
        r = ((abs(y_hat)[:, 0] - t) ** 2).mean()
        self.losses.append((val, n, float(r)))
        return r

    def metric(self, name):
        def fn(y_hat, y):
            val, n = self.of(y_hat, y)
            p = np.asarray(y_hat.detach() if isinstance(y_hat, torch.Tensor)
                           else y_hat)
            t = np.asarray(y)[:, 0] - 2 * val
            r = (float(((abs(p[:, 0]) > .5) == (t > .5)).mean())
                 if name == 'acc' else float(abs(p).mean()))
            self.metrics.append((name, val, n, r, snapshot(self.model)))
            return r
        return fn


def snapshot(model):
    ws = [np.array(w.detach() if isinstance(w, torch.Tensor) else w)
          for w in model.weights]
    if isinstance(model, Net):
        ws += [np.array(w.detach()) for w in model.lin.parameters()]
    return np.concatenate([w.reshape(-1) for w in ws])


def seeds(n):
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)


def trainer(cfg, log, epochs, folder, resume=False):
    cls, args = MODELS[cfg.kind]
    if resume:
        model = cls(**args)
    else:
        model = cls.from_diagrams(log.diagrams, **args)
    log.model = model
    fns = {n: log.metric(n) for n in ['acc', 'mean'][:cfg.evals]} or None
    kw = dict(evaluate_functions=fns, evaluate_on_train=cfg.on_train,
              log_dir=folder, from_checkpoint=resume, verbose=cfg.verbose,
              seed=cfg.seed)
    if cfg.torch:
        return PytorchTrainer(model, log.loss, epochs, optimizer=cfg.opt,
                              learning_rate=.05, optimizer_args=cfg.args,
                              **kw)
    opt_args = None
    if cfg.bounded:
        used = {w for ws in cfg.words for w in ws}
        opt_args = {'bounds': [[.05, .95]] * len(used)}
    return QuantumTrainer(model, log.loss, epochs, cfg.opt, cfg.hyper,
                          optimizer_args=opt_args, **kw)


def fit(cfg, log, t):
    train, val = cfg.datasets(log)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.fit(train, val, cfg.every, full_timing_report=cfg.timing,
              eval_interval=cfg.interval, eval_mode=cfg.mode,
              early_stopping_criterion=cfg.crit,
              early_stopping_interval=cfg.stop,
              minimize_criterion=cfg.minimize)


def state(t):
    out = {k: list(getattr(t, k)) for k in
           ('train_costs', 'train_epoch_costs', 'val_costs')}
    for k in ('train_eval_results', 'val_eval_results'):
        for n, v in getattr(t, k).items():
            out[f'{k}:{n}'] = list(v)
    out['weights'] = snapshot(t.model)
    return out


def stored(folder, name):
    """The comparable contents of a checkpoint."""
    path = os.path.join(folder, name)
    if not os.path.exists(path):
        return None
    cp = Checkpoint.from_file(path)
    ws = cp['model_weights']
    ws = [np.array(w.detach() if isinstance(w, torch.Tensor) else w)
          for w in ws]
    out = {'weights': np.concatenate([w.reshape(-1) for w in ws])}
    for k in ('epoch', 'step', 'train_costs', 'train_epoch_costs',
              'val_costs'):
        out[k] = np.array(cp[k], dtype=float)
    for k in ('train_eval_results', 'val_eval_results'):
        for n, v in cp[k].items():
            out[f'{k}:{n}'] = list(v)
    out['symbols'] = [s.name for s in cp['model_symbols']]
    return out
