"""Models of every kind over random circuits and tensor diagrams, with the
predictions they should make."""
import numpy as np
import torch

from lambeq import (NumpyModel, PennyLaneModel, PytorchModel,
                    PytorchQuantumModel, TketModel)
from lambeq.backend import quantum as Q
from lambeq.backend import tensor as T
from lambeq.backend.quantum import Swap, qubit
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Dim
from vf import qsim
from vf.qprog import ONE, ROT, Prog
from vf.tsim import Ref, adjoint, conj_reversed

NAMES = ['a', 'b', 'word__n.r@s_0', 'word__n.r@s_1', 'x y', 'θ', 'a0', 'A',
         'alpha', 'z']


class Circ(Prog):
    """A circuit whose gates every backend knows, with parameters."""

    def __init__(self, c, types=(), table=None, names=NAMES, **kw):
        super().__init__(c, types, **kw)
        self.table = table
        self.used = set()
        self.styles = []
        self.names_ = names

    def param(self):
        c = self.c
        if c.p(.15):
            v = c.choice([.5, .25, c.rng.uniform(-1, 1)])
            return v, v
        s = Symbol(c.choice(self.names_))
        v = self.table.setdefault(s, round(c.rng.uniform(0, 1), 4))
        self.used.add(s)
        k = c.choice(['plain', 'plain', 'plain', 'negated', 'scaled'])
        self.styles.append((k, s.name))
        if k == 'negated':
            c.ev('negated')
            return -s, -v
        if k == 'scaled':
            c.ev('scaled_symbol')
            f = c.choice([2, .5, -1.5])
            return f * s, f * v
        return s, v

    def single(self):
        c = self.c
        if c.p(.3):
            n = c.choice(ONE)
            return getattr(Q, n), qsim.FIXED[n], n
        n = c.choice(sorted(ROT))
        p, v = self.param()
        return ROT[n](p), qsim.rotation(n, v), n

    def gate2(self):
        return Swap(qubit, qubit), qsim.FIXED['SWAP'], 'SWAP'

    def op_mapped(self):
        c = self.c
        wide = max((k for k in range(2, 5) if self.spots(k)), default=0)
        if not wide:
            return
        n = c.choice(['X', 'Z', 'Rx', 'Ry', 'Rz'])
        if n in ROT:
            p, v = self.param()
            box, mat = ROT[n](p), qsim.rotation(n, v)
        else:
            box, mat = getattr(Q, n), qsim.FIXED[n]
        box, mat, name = self.control(box, mat, n, wide)
        if c.p(.2):
            box, mat = box.dagger(), mat.conj().T
        pos = c.choice(self.spots(int(np.log2(mat.shape[0]))))
        self.add(box, pos)
        self.ref.gate(pos, mat)
        self.ops.append((name, pos))


class Wide(Circ):
    """Custom boxes and any controlled gate as well."""

    def single(self):
        if self.c.p(.15):
            box, mat = self.custom(1)
            return box, mat, 'custom'
        return super().single()


SHARED = ['gate'] * 6 + ['mapped'] * 5 + ['gate2', 'ket', 'bra', 'swap',
                                          'frobenius']
ANY = SHARED + ['controlled', 'controlled', 'scalar', 'builder', 'shape']
MIXED = SHARED + ['controlled', 'discard', 'discard', 'measure', 'encode',
                  'mixedstate', 'scalar']


def circuit(c, table, k, kind='shared', names=NAMES):
    """A circuit from nothing to `k` qubits (k bits or qubits when mixed),
    of reasonable success probability."""
    for _ in range(30):
        trial = dict(table)
        g = (Circ if kind == 'shared' else Wide)(c, [], trial, names)
        g.op_ket()
        kinds = {'shared': SHARED, 'any': ANY, 'mixed': MIXED}[kind]
        for _ in range(c.int(2, 8)):
            g.step(kinds)
        while len(g.types) > k:
            pos = c.int(0, len(g.types) - 1)
            if g.types[pos] == 'b':
                g.op_unbit()
            elif kind == 'mixed' and c.p(.5):
                g.op_discard()
            else:
                g.op_bra()
        while len(g.types) < k:
            g.op_ket()
        g.op_gate()
        if not g.used or len(g.types) != k:
            continue
        p = total(g)
        if 1e-2 < p < 1e4:
            table.update({s: trial[s] for s in g.used})
            g.note()
            return g
    c.skip('no usable circuit')


def total(g):
    if g.diag.is_mixed:
        return float(np.abs(g.ref.mixed_array()).sum())
    return float((np.abs(g.ref.pure.arr) ** 2).sum())


def probabilities(g):
    """The normalised prediction: outcome probabilities of a pure state;
    absolute values of a mixed one."""
    if g.diag.is_mixed:
        a = np.abs(g.ref.mixed_array())
    else:
        a = np.abs(g.ref.pure.arr) ** 2
    return a / a.sum() if a.shape else a


def circuits(c, n, k=None, kind='shared', table=None, names=NAMES):
    """A batch of circuits with results of the same shape."""
    table = {} if table is None else table
    k = c.choice([1, 1, 2]) if k is None else k
    out = []
    kinds = None
    while len(out) < n:
        g = circuit(c, table, k, kind, names)
        key = (tuple(g.types), g.diag.is_mixed)
        if kinds is None:
            kinds = key
        if key == kinds:
            out.append(g)
    return out, table


class Tens:
    """A tensor diagram from nothing to `cod`, whose boxes are symbols."""

    def __init__(self, c, table, cod, most=4):
        self.c = c
        self.used = set()
        self.ops = []
        ref, diag = Ref([]), T.Id(Dim(1))
        for i in range(c.int(1, most) + 1):
            last = i == most or c.p(.2) and i
            w = list(ref.wires)
            n_in = c.int(0, min(2, len(w)))
            outs = [c.choice([2, 3]) for _ in range(c.int(0, 2))]
            pos = c.int(0, len(w) - n_in)
            if len(w) - n_in + len(outs) > 4:
                outs = []
            if last:
                n_in, pos, outs = len(w), 0, list(cod)
            ins = w[pos:pos + n_in]
            box, arr, op = self.box(table, ins, outs, i)
            diag = diag >> (T.Id(Dim(*w[:pos])) @ box
                            @ T.Id(Dim(*w[pos + n_in:])))
            ref.apply(pos, n_in, arr)
            self.ops.append((pos, tuple(ins), tuple(outs)) + op)
            if last:
                break
        else:
            w = list(ref.wires)
            box, arr, op = self.box(table, w, list(cod), 99)
            diag = diag >> box
            ref.apply(0, len(w), arr)
            self.ops.append((0, tuple(w), tuple(cod)) + op)
        self.diag, self.ref = diag, ref

    def box(self, table, ins, outs, i):
        c = self.c
        flip, rot = c.p(.3), c.p(.3)
        a, b = (outs, ins) if flip else (ins, outs)
        if rot:
            a, b = a[::-1], b[::-1]
        m, n = int(np.prod(a)), int(np.prod(b))
        if c.p(.15):
            kind = 'number'
            arr = c.np.normal(size=tuple(a) + tuple(b))
            data = arr.astype(np.float32)
        else:
            s = Symbol(c.choice(['a', 'b', 'word__n']), m, n)
            kind = s.name
            if s in self.used:
                c.ev('shared_symbol')
            if s not in table:
                table[s] = c.np.normal(size=m * n)
            self.used.add(s)
            data, arr = s, table[s].reshape(tuple(a) + tuple(b))
        box = T.Box(f'f{i}', Dim(*a), Dim(*b), data)
        if rot:
            box, arr = box.rotate(1), conj_reversed(arr, len(a))
            a, b = a[::-1], b[::-1]
        if flip:
            box, arr = box.dagger(), adjoint(arr, len(a))
        return box, arr, (kind, flip, rot)


def tensors(c, n, table=None, cod=None):
    table = {} if table is None else table
    cod = [c.choice([2, 3]) for _ in range(c.int(0, 2))] if (
        cod is None) else cod
    out = []
    while len(out) < n:
        trial = dict(table)
        g = Tens(c, trial, cod)
        if g.used and np.abs(g.ref.arr).max(initial=0) < 1e3:
            table.update({s: trial[s] for s in g.used})
            out.append(g)
    for g in out:
        c.note(ops=g.ops)
        c.sig(tuple(g.ops))
    return out, table


KINDS = ['numpy', 'numpy_jit', 'tket', 'pytorch', 'torch_quantum',
         'pennylane', 'pennylane_states']


def classes():
    from vf.checks.p21 import Exact
    return {
        'numpy': (NumpyModel, {}),
        'numpy_jit': (NumpyModel, {'use_jit': True}),
        'tket': (TketModel, {'backend_config': {
            'backend': Cached(Exact()), 'compilation': None, 'shots': 1}}),
        'pytorch': (PytorchModel, {}),
        'torch_quantum': (PytorchQuantumModel, {}),
        'pennylane': (PennyLaneModel, {}),
        'pennylane_states': (PennyLaneModel, {
            'probabilities': False, 'normalize': False}),
        'pennylane_unit': (PennyLaneModel, {
            'probabilities': False, 'normalize': True}),
        'pennylane_raw': (PennyLaneModel, {'normalize': False}),
    }


class Cached:
    """The exact backend with the methods the model calls."""

    def __init__(self, backend):
        self.backend = backend

    def empty_cache(self):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.backend, name)


def make(kind, diagrams, **kw):
    cls, args = classes()[kind]
    model = cls.from_diagrams(diagrams, **{**args, **kw})
    model.vf_kind = kind
    return model


def set_weights(model, kind, table):
    """Give each symbol of the model its value."""
    vals = [table[s] for s in model.symbols]
    if kind != 'pytorch':
        vals = [float(v) for v in vals]
    if kind in ('numpy', 'numpy_jit', 'tket'):
        model.weights = np.array(vals, dtype=float)
    elif kind == 'torch_quantum':
        model.initialise_weights()
        with torch.no_grad():
            model.weights.copy_(torch.tensor(vals))
    else:
        model.initialise_weights()
        with torch.no_grad():
            for w, v in zip(model.weights, vals):
                w.copy_(torch.as_tensor(np.asarray(v)).reshape(w.shape))
    return model


def weights(model):
    """The weights as plain arrays, one for each symbol."""
    return [np.array(w.detach() if isinstance(w, torch.Tensor) else w,
                     dtype=float) for w in model.weights]


def run(model, diagrams):
    out = model(diagrams)
    if isinstance(out, torch.Tensor):
        out = out.detach().numpy()
    out = np.asarray(out)
    if getattr(model, 'vf_kind', '') == 'pennylane_unit':
        # how states are scaled is left open
        out = np.array([x / np.sqrt((np.abs(x) ** 2).sum()) for x in out])
    return out


def expected(kind, gs):
    out = []
    for g in gs:
        if kind == 'pytorch':
            out.append(g.ref.arr)
        elif kind == 'pennylane_states':
            out.append(g.ref.pure.arr)
        elif kind == 'pennylane_unit':
            a = g.ref.pure.arr
            out.append(a / np.sqrt((np.abs(a) ** 2).sum()))
        elif kind == 'pennylane_raw':
            out.append(np.abs(g.ref.pure.arr) ** 2)
        else:
            out.append(probabilities(g))
    return np.array(out)


def batch(c, kind, n, table=None, names=NAMES, k=None):
    """Circuits or tensor diagrams fit for the kind of model."""
    if kind == 'pytorch':
        return tensors(c, n, table, k)
    return circuits(c, n, k, 'shared', table, names)
