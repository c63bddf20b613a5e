"""P22 Translation to PennyLane keeps the state or distribution."""
import contextlib
import io
import pickle

import numpy as np
import torch

from lambeq.backend import quantum as Q
from lambeq.backend.quantum import Controlled, Diagram, Id, Swap, bit, qubit
from lambeq.backend.symbol import Symbol
from vf import qsim
from vf.core import Family
from vf.qprog import ONE, ROT, Prog, phase
from vf.tsim import close

RULE = 'distinct circuits (operation sequences) translated'
REQUIRED = ['amplitudes', 'probabilities', 'mixed', 'mixed_selected',
            'post_selected', 'post_select_one', 'closed', 'scaled',
            'several_scalars', 'dagger', 'conjugated', 'zero_angle',
            'symbolic', 'scaled_symbol', 'shared_symbol', 'gradient',
            'refused', 'drawn', 'ready', 'reused', 'pickled', 'late_gate']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)


class Pl(Prog):
    symbols = None        # name -> value, when parameters are symbolic

    def param(self):
        c = self.c
        if self.symbols is None or c.p(.4):
            p = phase(c)
            if p == 0:
                c.ev('zero_angle')
            return p, p
        name = c.choice(['alpha', 'x1', 'b__n.r@n_0', 'z'])
        if name in self.symbols:
            c.ev('shared_symbol')
        v = self.symbols.setdefault(name, c.rng.uniform(-1, 1))
        s, k = Symbol(name), 1
        if c.p(.4):
            k = c.choice([-1, 2, .5, c.rng.uniform(-2, 2)])
            s = -s if k == -1 else s * k
            c.ev('scaled_symbol')
        return s, k * v

    def single(self):
        c = self.c
        if c.p(.5):
            n = c.choice(ONE)
            return getattr(Q, n), qsim.FIXED[n], n
        n = c.choice(sorted(ROT))
        p, v = self.param()
        return ROT[n](p), qsim.rotation(n, v), n

    def vary(self, box, mat, name):
        box, mat, name = super().vary(box, mat, name)
        if "'" in name:
            self.c.ev('conjugated')
        return box, mat, name

    def gate2(self):
        return Swap(qubit, qubit), qsim.FIXED['SWAP'], 'SWAP'

    def op_mapped(self):
        c = self.c
        wide = max((k for k in range(2, 5) if self.spots(k)), default=0)
        if not wide:
            return
        n = c.choice(['X', 'Y', 'Z', 'Rx', 'Ry', 'Rz'])
        if n in ROT:
            p, v = self.param()
            box, mat = ROT[n](p), qsim.rotation(n, v)
        else:
            box, mat = getattr(Q, n), qsim.FIXED[n]
        box, mat, name = self.control(box, mat, n, wide)
        if c.p(.2):
            box, mat = box.dagger(), mat.conj().T
        pos = c.choice(self.spots(int(np.log2(mat.shape[0]))))
        self.add(box, pos)
        self.ref.gate(pos, mat)
        self.ops.append((name, pos))


PURE = ['gate'] * 6 + ['mapped'] * 5 + ['gate2', 'ket', 'bra', 'swap',
                                        'scalar', 'scalar', 'frobenius']
KNOWN = {'H', 'X', 'Y', 'Z', 'S', 'T'}


def expressible(d):
    """Single-qubit gates, once-controlled Paulis and rotations, swaps."""
    for b in d.boxes:
        n = 0
        while isinstance(b, Controlled):
            b, n = b.controlled, n + 1
        if n > 1 or n and (getattr(b, 'z', 0) % 2 or not isinstance(
                b, Q.Rotation) and b not in (Q.X, Q.Y, Q.Z)):
            return False
    return True


def circuit(c, mixed=False, symbolic=False, steps=None):
    ready = c.p(.3)
    g = Pl(c, 'q' * c.int(0, 0 if ready else 3))
    if symbolic:
        g.symbols = {}
    if ready:
        # preparations first and effects last, as the exporter wants it
        g.kets_first(c.int(1, 4))
        kinds = ['gate'] * 6 + ['mapped'] * 5
    else:
        kinds = PURE + ['discard', 'discard'] * mixed
        if not g.types:
            g.op_ket()
    for _ in range(c.int(1, 9) if steps is None else steps):
        g.step(kinds)
    if ready and c.p(.8):
        for _ in range(c.int(1, len(g.types))):
            g.step(['bra'] + ['discard'] * mixed)
    elif c.p(.25):
        while g.types and g.spots(1):
            g.op_bra()
    names = [o[0] for o in g.ops]
    if 'bra' in names:
        c.ev('post_selected')
        if any(1 in o[2] for o in g.ops if o[0] == 'bra'):
            c.ev('post_select_one')
        if set(names[names.index('bra'):]) - {'bra', 'scalar', 'sqrt'}:
            c.ev('late_gate')
    k = sum(n in ('scalar', 'sqrt') for n in names)
    if k:
        c.ev('scaled')
    if k > 1:
        c.ev('several_scalars')
    return g


def start(arr, n):
    """Inputs are prepared in zero."""
    return arr[(0,) * n]


def wanted(g, probabilities):
    """The value of the circuit from |0...0>."""
    a = start(g.ref.pure.arr, len(g.ref.ins))
    return np.abs(a) ** 2 if probabilities else a


def mixed_value(g):
    return complex(g.ref.distribution()).real


def translate(c, g, **kw):
    """None if refused (only where PennyLane has no gate for it)."""
    err = io.StringIO()
    before = repr(g.diag)
    try:
        with contextlib.redirect_stderr(err):
            p = g.diag.to_pennylane(**kw)
    except (NotImplementedError, KeyError, ValueError) as e:
        c.ev('refused')
        c.check(not expressible(g.diag), 'refused-needlessly', repr(e))
        return None
    c.check(repr(g.diag) == before, 'input-altered')
    return p


def value(p):
    v = p.eval()
    return v.detach().numpy() if hasattr(v, 'detach') else np.asarray(v)


def same(c, got, want, mech):
    if want.ndim == 0 and got.shape == (1,):
        got = got.reshape(())
    c.check(got.shape == want.shape, mech + '-shape',
            lambda: f'{got.shape} != {want.shape}')
    c.check(close(got, want, 2e-5), mech, lambda: f'{got} != {want}')


def fam_pure(c):
    g = circuit(c)
    g.note()
    prob = c.p(.5)
    p = translate(c, g, probabilities=prob)
    if p is None:
        return
    kind = 'probabilities' if prob else 'amplitudes'
    c.ev(kind)
    want = wanted(g, prob)
    if want.ndim == 0:
        c.ev('closed')
    same(c, value(p), want, kind)
    if c.p(.2):
        c.ev('reused')
        same(c, value(p), want, kind + '-again')
    if c.p(.2):
        c.ev('drawn')
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            p.draw()
        c.check(len(out.getvalue().splitlines()) >= 1, 'drawing')


def fam_mixed(c):
    g = circuit(c, mixed=True)
    if not any(o[0] == 'discard' for o in g.ops):
        if not g.spots(1):
            c.skip('nothing to discard')
        g.op_discard()
    g.note()
    p = translate(c, g, probabilities=c.p(.5))
    if p is None:
        return
    c.ev('mixed')
    if any(o[0] == 'bra' for o in g.ops):
        c.ev('mixed_selected')
    got = value(p)
    want = mixed_value(g)
    c.check(got.size == 1, 'mixed-shape', got.shape)
    c.check(close(got.reshape(()), np.array(want), 2e-5), 'mixed',
            lambda: f'{got} != {want}')


def fam_symbolic(c):
    g = circuit(c, symbolic=True, mixed=c.p(.25))
    g.note()
    prob = c.p(.5)
    p = translate(c, g, probabilities=prob)
    if p is None or not g.symbols:
        c.skip('no symbols')
    c.ev('symbolic')
    mixed = g.ref.pure is None
    if c.p(.3):
        # circuits are saved with their device left out
        c.ev('pickled')
        p._device = p._circuit = None
        p = pickle.loads(pickle.dumps(p))
        p.initialise_device_and_circuit()
    want = (np.array(mixed_value(g)) if mixed else wanted(g, prob))
    weights = {Symbol(n): torch.tensor(v, dtype=torch.float64)
               for n, v in g.symbols.items()}
    c.raises(ValueError, p.eval, mechanism='evaluated-without-parameters')
    p.initialise_concrete_params(weights)
    got = value(p)
    same(c, got.reshape(()) if mixed else got, want, 'symbolic')
    # other values, on the same object
    k = {n: c.rng.uniform(-1, 1) for n in g.symbols}
    p.initialise_concrete_params({Symbol(n): torch.tensor(v)
                                  for n, v in k.items()})
    syms = [Symbol(n) for n in k]
    d = g.diag.lambdify(*syms)(*[k[s.name] for s in syms])
    d = Id().tensor(*[Q.Ket(0)] * len(d.dom)) >> d if d.dom else d
    if mixed:
        d = d.init_and_discard()
        native = np.asarray(d.eval(mixed=True)).real.reshape(())
    else:
        native = np.asarray(d.eval())
        native = np.abs(native) ** 2 if prob else native
    got = value(p)
    same(c, got.reshape(()) if mixed else got, native, 'substituted-again')


def fam_gradient(c):
    g = circuit(c, symbolic=True, steps=c.int(2, 6))
    for _ in range(10):
        if g.symbols:
            break
        g.op_gate()
    if not g.symbols or not expressible(g.diag):
        c.skip('no symbols')
    g.note()
    p = translate(c, g, probabilities=True)
    if p is None:
        return
    c.ev('gradient')
    names = sorted(g.symbols)
    syms = [Symbol(n) for n in names]
    d = g.diag
    d = Id().tensor(*[Q.Ket(0)] * len(d.dom)) >> d if d.dom else d
    f = d.lambdify(*syms)
    shape = np.shape(f(*g.symbols.values()).eval())
    w = c.np.normal(size=shape)

    def loss(xs):
        return float((np.abs(np.asarray(f(*xs).eval())) ** 2 * w).sum())

    params = [torch.nn.Parameter(torch.tensor(g.symbols[n],
                                              dtype=torch.float64))
              for n in names]
    p.initialise_concrete_params(dict(zip(syms, params)))
    out = p.eval()
    total = (out.reshape(shape) * torch.tensor(w)).sum()
    total.backward()
    xs = [g.symbols[n] for n in names]
    for i, par in enumerate(params):
        h = 1e-4
        hi, lo = list(xs), list(xs)
        hi[i] += h
        lo[i] -= h
        want = (loss(hi) - loss(lo)) / (2 * h)
        got = 0. if par.grad is None else float(par.grad)
        c.check(abs(got - want) <= 1e-3 * max(1, abs(want)), 'gradient',
                lambda: f'{names[i]}: {got} != {want}')


def fam_refuse(c):
    kind = c.choice(['measure', 'custom', 'ccx', 'bits'])
    c.note(kind)
    c.sig(kind)
    c.ev('refused')
    if kind == 'measure':
        d = Q.Ket(0) >> Q.H >> Q.Measure()
    elif kind == 'custom':
        d = Q.Ket(0) >> Q.Box('odd', qubit, qubit,
                              c.np.normal(size=(2, 2)))
    elif kind == 'ccx':
        d = Q.Ket(0, 0, 0) >> c.choice([Q.CCX, Q.CCZ])
    else:
        d = Q.Bit(0) >> Q.Encode() >> Q.Discard()
    c.raises(Exception, lambda: d.to_pennylane(),
             mechanism=f'refuse-{kind}')


FAMILIES = [
    Family('pure', fam_pure, 500),
    Family('mixed', fam_mixed, 150),
    Family('symbolic', fam_symbolic, 200),
    Family('gradient', fam_gradient, 80),
    Family('refuse', fam_refuse, 12),
]
