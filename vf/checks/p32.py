"""P32 Contraction paths may be cached but never change results."""
import os
import pickle
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import opt_einsum as oe
import torch

from lambeq import Checkpoint, PytorchModel
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Cup, Diagram, Dim, Id, Spider
from lambeq.training.tn_path_optimizer import (CachedTnPathOptimizer,
                                               TnPathOptimizer,
                                               ordered_nodes_contractor)
from vf import crash
from vf.checks import p19, p20
from vf.core import Family
from vf.tsim import close

RULE = ('distinct (optimiser, storage, sequence of network structures) '
        'histories')
REQUIRED = ['plain', 'cached', 'no_file', 'file', 'str_file', 'new_folder',
            'reloaded', 'same_structure', 'same_diagram', 'other_structure',
            'no_search', 'searched', 'memory_limit', 'random_greedy',
            'auto_hq', 'greedy', 'circuit', 'mixed_circuit', 
            'empty_file', 'truncated', 'garbage',
            'other_pickle', 'foreign_class', 'missing', 'crashed_save',
            'killed_save', 'failed_save', 'checkpoint', 'checkpoint_off',
            'checkpoint_file', 'model', 'model_revalued', 'model_reloaded',
            'same_rank_other_wiring', 'other_sizes', 'given_paths']
CALLS = []


def probe(inputs, output, size_dict, memory_limit=None, **kw):
    CALLS.append(len(inputs))
    return oe.paths.get_path_fn('greedy')(inputs, output, size_dict,
                                          memory_limit)


def worker_setup():
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)
    oe.paths.register_path_fn('vf-probe', probe)


class Folder:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='vf-p32-')
        return pathlib.Path(self.path)

    def __exit__(self, *a):
        shutil.rmtree(self.path)


def contract(d, opt, **kw):
    def contractor(nodes, edges):
        return ordered_nodes_contractor(nodes, opt, edges)
    return np.asarray(d.eval(contractor=contractor, **kw))


class Net:
    """A network, which can be given other numbers."""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.state = c.rng.getstate()
        self.label = None
        self.fresh()

    def fresh(self):
        """The same structure with other numbers."""
        c = self.c
        now = c.rng.getstate()
        c.rng.setstate(self.state)
        if self.kind == 'tensor':
            g = p20.rand_diagram(c, c.int(2, 6))
            self.diag, self.want = g.diag, g.ref.arr
            label = (g.ref.ins, tuple(g.ops))
        elif self.kind == 'closed':
            g = p20.Gen(c, [])
            for _ in range(c.int(2, 5)):
                g.step()
            for _ in range(6):
                g.cup()
            self.diag, self.want = g.diag, g.ref.arr
            label = tuple(g.ops)
        elif self.kind == 'twin':
            # boxes of the same shapes, wired differently
            x, y = c.choice([(2, 2), (3, 3)])
            perm = list(range(4))
            c.rng.shuffle(perm)
            a, b = c.np.normal(size=(x,) * 4), c.np.normal(size=(x,) * 4)
            ty = Dim(*(x,) * 4)
            self.diag = (Box('a', Dim(1), ty, a)
                         >> Diagram.permutation(ty, perm)
                         >> Box('b', ty, Dim(1), b))
            self.want = np.tensordot(a.transpose(perm), b, 4)
            label = tuple(perm), x
            c.ev('same_rank_other_wiring')
        elif self.kind == 'chain':
            n, d = c.int(2, 4), [c.choice([2, 3, 4]) for _ in range(5)]
            self.diag, self.want = Id(Dim(d[0])), np.eye(d[0])
            for i in range(n):
                m = c.np.normal(size=(d[i], d[i + 1]))
                self.diag = self.diag >> Box('m', Dim(d[i]), Dim(d[i + 1]),
                                             m)
                self.want = self.want @ m
            label = n, tuple(d)
            c.ev('other_sizes')
        else:
            mixed = self.kind == 'mixed'
            g = p19.build(c, mixed, c.int(2, 5))
            self.diag = g.diag
            self.want = g.ref.mixed_array() if mixed else g.ref.pure.arr
            label = tuple(map(str, g.ops))
            c.ev('mixed_circuit' if mixed else 'circuit')
        c.rng.setstate(now)
        if self.label is None:
            self.label = label
        self.size = len(self.diag.boxes)

    def judge(self, opt, mech='value'):
        c = self.c
        kw = {}
        if self.kind in ('tensor', 'closed', 'twin', 'chain'):
            kw['dtype'] = (np.complex128 if np.iscomplexobj(self.want)
                           else np.float64)
        elif self.kind == 'mixed':
            kw['mixed'] = True
        got = contract(self.diag, opt, **kw)
        c.check(got.shape == np.shape(self.want), mech + '-shape',
                lambda: f'{got.shape} != {np.shape(self.want)}')
        c.check(close(got, self.want, 1e-7), mech,
                lambda: f'{got} != {self.want}')


def pool(c, n):
    out = []
    while len(out) < n:
        net = Net(c, c.choice(['tensor', 'tensor', 'closed', 'twin', 'twin',
                               'chain', 'pure', 'mixed']))
        # advance, so that the next network is another one
        c.rng.random()
        if net.size <= 12 and np.size(net.want) <= 4096:
            out.append(net)
    return out


def optimiser(c, where, alg='vf-probe', **kw):
    if where is None:
        return CachedTnPathOptimizer(alg, **kw)
    return CachedTnPathOptimizer(alg, save_file=where, **kw)


def searches(fn):
    CALLS.clear()
    fn()
    return len(CALLS)


def fam_history(c):
    """Evaluations of many networks with one cache, which is now and then
    taken up again from its file."""
    nets = pool(c, c.int(2, 5))
    with Folder() as tmp:
        where = None
        if c.p(.6):
            where = tmp / 'paths.pkl'
            if c.p(.3):
                where = tmp / 'a' / 'b' / 'paths'
                c.ev('new_folder')
            if c.p(.4):
                where = str(where)
                c.ev('str_file')
            c.ev('file')
        else:
            c.ev('no_file')
        opt = optimiser(c, where)
        c.ev('cached')
        known, history, total = set(), [], 0
        for _ in range(c.int(3, 9)):
            if where is not None and c.p(.3):
                opt = optimiser(c, where)
                history.append('reload')
                c.ev('reloaded')
            i = c.int(0, len(nets) - 1)
            net = nets[i]
            if i in known:
                if c.p(.7):
                    net.fresh()
                    c.ev('same_structure')
                else:
                    c.ev('same_diagram')
            else:
                c.ev('other_structure')
            n = searches(lambda: net.judge(opt))
            total += n
            if i in known:
                c.eq(n, 0, 'path-searched-again',
                     f'{net.label} after {history}')
                c.ev('no_search')
            else:
                c.check(n <= 1, 'searched-twice', '')
                if n:
                    c.ev('searched')
            known.add(i)
            history.append(i)
        if where is not None:
            c.check(os.path.isfile(where) or not total,
                    'cache-file-missing', str(where))
        c.note(nets=[(n.kind, n.label) for n in nets], history=history)
        c.sig(where is None, tuple(history),
              tuple((n.kind, n.label) for n in nets))


def fam_algorithms(c):
    """Whatever finds the path, and within whatever memory."""
    alg = c.choice(['auto', 'greedy', 'random-greedy', 'auto-hq', 'dp',
                    'eager'])
    nets = pool(c, 3)
    kw = {}
    if alg == 'random-greedy':
        kw['max_repeats'] = 4
        c.ev('random_greedy')
    if alg in ('auto', 'greedy', 'random-greedy') and c.p(.6):
        kw['memory_limit'] = c.choice([1, 2, 4, 16, 64, 10**6])
        c.ev('memory_limit')
    c.ev(alg.replace('-', '_'))
    cls = c.choice([TnPathOptimizer, CachedTnPathOptimizer])
    c.ev('plain' if cls is TnPathOptimizer else 'cached')
    opt = cls(alg, **kw)
    c.note(alg=alg, kw=kw, cls=cls.__name__,
           nets=[(n.kind, n.label) for n in nets])
    c.sig(alg, str(kw), cls.__name__, tuple(n.kind for n in nets))
    for net in nets:
        if alg in ('auto-hq', 'dp') and net.size > 7:
            continue
        net.judge(opt)
        net.fresh()
        net.judge(opt)


class Foreign:
    pass


DAMAGE = ['missing', 'empty_file', 'truncated', 'truncated', 'garbage',
          'other_pickle', 'foreign_class', 'crashed_save', 'crashed_save',
          'killed_save', 'failed_save']


def fam_damage(c):
    nets = pool(c, 3)
    how = c.choice(DAMAGE)
    with Folder() as tmp:
        f = tmp / 'paths.pkl'
        opt = optimiser(c, f)
        for net in nets[:2]:
            net.judge(opt)
        blob = f.read_bytes() if f.exists() else b''
        c.note(how=how, size=len(blob))
        c.sig(how, len(blob), tuple((n.kind, n.label) for n in nets))
        if how == 'missing':
            if f.exists():
                os.remove(f)
        elif how == 'empty_file':
            f.write_bytes(b'')
        elif how == 'truncated':
            if len(blob) < 3:
                c.skip('nothing stored')
            f.write_bytes(blob[:c.int(1, len(blob) - 1)])
        elif how == 'garbage':
            f.write_bytes(bytes(c.rng.randrange(256)
                                for _ in range(c.int(1, 60))))
        elif how == 'other_pickle':
            f.write_bytes(pickle.dumps(c.choice(
                [None, [], 3, 'paths', (1, 2), {1: 2}, {'a': [(0, 1)]},
                 {(): ()}, np.zeros(3)])))
        elif how == 'foreign_class':
            # of a class this version does not have
            data = pickle.dumps({'x': Foreign()}, protocol=2)
            f.write_bytes(data.replace(b'Foreign', b'Unknown'))
        else:
            def work():
                o = optimiser(c, f)
                nets[2].judge(o)
            if how == 'crashed_save':
                k = crash.count(lambda: None)
                total = []
                g = tmp / 'trial.pkl'
                shutil.copy(f, g) if f.exists() else None

                def trial():
                    nets[2].judge(optimiser(c, g))
                total = crash.count(trial)
                # the file is written late
                at = c.int(max(k, total // 3), total)
                c.check(crash.forked(crash.dying_at(work, at))
                        in ('died', 'ok'), 'crash-run', '')
            else:
                room = c.int(0, max(1, len(blob) + 20))
                crash.forked(crash.with_room(work, room,
                                             how == 'killed_save'))
        c.ev(how)
        # a new start
        CALLS.clear()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            opt = optimiser(c, f)
        for net in nets:
            net.fresh()
            net.judge(opt, 'value-after-damage')
        if not CALLS:
            return          # no path was needed, so nothing was stored
        # what was found since is found again
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            opt = optimiser(c, f)
        c.eq([str(w.message) for w in log if 'paths' in str(w.message)], [],
             'cache-still-damaged')
        for net in nets:
            net.fresh()
            c.eq(searches(lambda: net.judge(opt)), 0,
                 'path-lost-after-damage', how)


def fam_checkpoint(c):
    """Paths travel with checkpoints if, and only if, asked to."""
    nets = pool(c, 3)
    keep = c.p(.7)
    a = CachedTnPathOptimizer('vf-probe', save_checkpoints=keep)
    searched = [searches(lambda: net.judge(a)) for net in nets[:2]]
    ck = a.store_to_checkpoint(Checkpoint())
    c.ev('checkpoint' if keep else 'checkpoint_off')
    c.sig(keep, tuple((n.kind, n.label) for n in nets))
    # the first goes on; the checkpoint does not change
    nets[2].judge(a)
    if c.p(.5):
        with Folder() as tmp:
            ck.to_file(tmp / 'c.lt')
            ck = Checkpoint.from_file(tmp / 'c.lt')
        c.ev('checkpoint_file')
    b = CachedTnPathOptimizer('vf-probe', save_checkpoints=keep)
    b.restore_from_checkpoint(ck)
    for net, n in zip(nets, searched):
        net.fresh()
        m = searches(lambda: net.judge(b))
        c.eq(m, 0 if keep else n, 'restored-paths',
             f'{net.label} kept={keep}')
    net = nets[2]
    net.fresh()
    net.judge(b)
    TnPathOptimizer('auto').restore_from_checkpoint(ck)


def fam_given(c):
    """Paths can be handed over."""
    nets = pool(c, 3)
    a, b = (CachedTnPathOptimizer('vf-probe') for _ in 'ab')
    nets[0].judge(a)
    nets[1].judge(b)
    b.add_paths(a.cached_paths)
    c.ev('given_paths')
    c.sig(tuple((n.kind, n.label) for n in nets))
    for net in nets[:2]:
        net.fresh()
        c.eq(searches(lambda: net.judge(b)), 0, 'given-path-searched', '')
    nets[2].judge(b)


def fam_model(c):
    """A model with a cache over a history of weights and batches."""
    shapes = [c.choice([2, 3]) for _ in range(2)]

    def diagram(j):
        n, s = Dim(shapes[0]), Dim(shapes[1])

        def word(k, cod):
            return Box(f'w{k}', Dim(1), cod,
                       Symbol(f'w{k}', directed_cod=cod.product))
        how = (j + c.int(0, 1)) % 4
        if how == 0:
            return (word(0, n) @ word(1, n @ s) >> Cup(n, n) @ Id(s))
        if how == 1:
            return (word(0, n) @ word(2, n @ s @ n) @ word(3, n)
                    >> Cup(n, n) @ Id(s) @ Cup(n, n))
        if how == 2:
            return (word(0, n) @ word(3, n) >> Spider(n, 2, 1)) >> Box(
                'p', n, s, Symbol('p', directed_dom=n.product,
                                  directed_cod=s.product))
        return word(4, s)
    diags = [diagram(j) for j in range(4)]
    with Folder() as tmp:
        f = tmp / 'cache.pkl'
        opt = CachedTnPathOptimizer('vf-probe', save_file=f)
        model = PytorchModel(tn_path_optimizer=opt)
        model.symbols = sorted({s for d in diags for s in d.free_symbols},
                               key=str)
        model.initialise_weights()
        seen, history = set(), []
        for step in range(c.int(2, 6)):
            if c.p(.5):
                with torch.no_grad():
                    for w in model.weights:
                        w.copy_(torch.randn_like(w))
                c.ev('model_revalued')
            if c.p(.3):
                opt = CachedTnPathOptimizer('vf-probe', save_file=f)
                model.tn_path_optimizer = opt
                c.ev('model_reloaded')
            batch = [c.int(0, 3) for _ in range(c.int(1, 4))]
            CALLS.clear()
            got = model.get_diagram_output([diags[i] for i in batch])
            n = len(CALLS)
            if set(batch) <= seen:
                c.eq(n, 0, 'model-searched-again', '')
            for i, row in zip(batch, got):
                d = diags[i]
                syms = sorted(d.free_symbols, key=str)
                vals = [model.weights[model.symbols.index(s)].detach()
                        .numpy() for s in syms]
                want = np.asarray(d.lambdify(*syms)(*vals).eval(
                    dtype=np.float64))
                row = row.detach().numpy()
                c.check(row.shape == want.shape
                        and close(row, want, 1e-4), 'model-value',
                        lambda: f'{row} != {want}')
            seen |= set(batch)
            history.append(tuple(batch))
        c.ev('model')
        c.note(shapes=shapes, history=history)
        c.sig(tuple(shapes), tuple(history))


FAMILIES = [
    Family('history', fam_history, 160),
    Family('algorithms', fam_algorithms, 120),
    Family('damage', fam_damage, 200),
    Family('checkpoint', fam_checkpoint, 60),
    Family('given', fam_given, 30),
    Family('model', fam_model, 60),
]
