"""P21 Translation to and from pytket keeps the measured distribution."""
from collections import Counter
import copy
import pickle

import numpy as np
import pytket
from pytket import Bit as TkBit, Circuit as TkCircuit, OpType, Qubit
import sympy

from lambeq.backend import quantum as Q
from lambeq.backend.converters.tk import Circuit, from_tk, to_tk
from lambeq.backend.quantum import (Box, Controlled, Diagram, Id, Measure,
                                    Swap, bit, qubit)
from lambeq.backend.symbol import Symbol
from vf import qsim
from vf.core import Family
from vf.qprog import ONE, ROT, Prog, phase, ty
from vf.qsim import QRef
from vf.tsim import close

RULE = 'distinct circuits (operation sequences) translated'
REQUIRED = ['exported', 'imported_back', 'post_selected', 'measured',
            'unordered_bits', 'scaled', 'refused', 'run_eval', 'run_batch',
            'symbolic', 'scaled_symbol', 'from_tk', 'tk_bits_permuted',
            'tk_post_select', 'tk_scale', 'tk_bit_added', 'tk_post_process',
            'plain_tk',
            'tk_registers', 'tk_distant', 'tk_refused', 'zero_angle',
            'late_gate', 'conjugated', 'aer', 'ready', 'copied',
            'bits_renamed']

MAPPED = {'H', 'X', 'Y', 'Z', 'S', 'T', 'Rx', 'Ry', 'Rz', 'CX', 'CZ', 'CRx',
          'CRy', 'CRz', 'CCX', 'SWAP'}


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


# -- running pytket circuits, apart from lambeq ---------------------------
def run_tk(circ):
    """The joint distribution of the classical bits (0 where unwritten)."""
    qs, bs = circ.qubits, circ.bits
    n = len(qs)
    state = np.zeros((2,) * n, complex)
    state[(0,) * n] = 1
    branches = {(0,) * len(bs): state.reshape(-1)}
    for cmd in circ.get_commands():
        op = cmd.op
        if op.type == OpType.Measure:
            q, b = qs.index(cmd.qubits[0]), bs.index(cmd.bits[0])
            new = {}
            for key, vec in branches.items():
                v = vec.reshape((2,) * n)
                for val in (0, 1):
                    w = np.zeros_like(v)
                    at = (slice(None),) * q + (val,)
                    w[at] = v[at]
                    k = key[:b] + (val,) + key[b + 1:]
                    new.setdefault((k, val, key), w.reshape(-1))
            # incoherent branches: keep one vector per record
            out = {}
            for (k, val, key), w in new.items():
                if np.abs(w).max() < 1e-14:
                    continue
                out.setdefault(k, []).append(w)
            if any(len(v) > 1 for v in out.values()):
                raise ValueError('bit written twice')
            branches = {k: v[0] for k, v in out.items()}
        elif op.type == OpType.Barrier:
            continue
        else:
            u = op.get_unitary()
            m = qsim.on(n, [qs.index(q) for q in cmd.qubits], u)
            branches = {k: m @ v for k, v in branches.items()}
    p = np.zeros((2,) * len(bs))
    for key, vec in branches.items():
        p[key] += np.linalg.norm(vec) ** 2
    return p


def outcome(circ):
    """With the recorded post-selection and scale (exact)."""
    p = run_tk(circ)
    at = [slice(None)] * p.ndim
    for k, v in circ.post_selection.items():
        at[k] = v
    return p[tuple(at)] * circ.scalar


class Exact:
    """A backend that answers with exact probabilities, in pytket's form."""

    class Result:
        def __init__(self, counts):
            self.counts = counts

        def get_counts(self):
            return self.counts

    def __init__(self):
        self.asked = []

    def process_circuits(self, circuits, n_shots=None, seed=None, **kw):
        self.asked.append(len(circuits))
        return list(circuits)

    def get_result(self, circ):
        p = run_tk(circ)
        return self.Result(Counter({k: float(x) for k, x in np.ndenumerate(p)
                                    if x > 1e-15}))


# -- exporting ------------------------------------------------------------
class Tk(Prog):
    def single(self):
        c = self.c
        if c.p(.5):
            n = c.choice(ONE)
            return getattr(Q, n), qsim.FIXED[n], n
        n = c.choice(sorted(ROT))
        p = phase(c)
        if p == 0:
            c.ev('zero_angle')
        return ROT[n](p), qsim.rotation(n, p), n

    def vary(self, box, mat, name):
        before = name
        box, mat, name = super().vary(box, mat, name)
        if "'" in name:
            self.c.ev('conjugated')
        return box, mat, name

    def gate2(self):
        return Swap(qubit, qubit), qsim.FIXED['SWAP'], 'SWAP'

    def op_mapped(self):
        """A controlled gate pytket is meant to know."""
        c = self.c
        wide = max((k for k in range(2, 5) if self.spots(k)), default=0)
        if not wide:
            return
        n = c.choice(['X', 'Z', 'Rx', 'Ry', 'Rz'])
        p = phase(c)
        box = ROT[n](p) if n in ROT else getattr(Q, n)
        mat = qsim.rotation(n, p) if n in ROT else qsim.FIXED[n]
        name = n
        for _ in range(2 if n == 'X' and wide > 2 and c.p(.5) else 1):
            top = wide - (name == 'X' and wide > 2 and c.p(.5))
            box, mat, name = self.control(box, mat, name, max(
                top, int(np.log2(mat.shape[0])) + 1))
        if c.p(.2):
            box, mat = box.dagger(), mat.conj().T
        k = int(np.log2(mat.shape[0]))
        if k > wide:
            return
        pos = c.choice(self.spots(k))
        self.add(box, pos)
        self.ref.gate(pos, mat)
        self.ops.append((name, pos))


KINDS = ['gate'] * 6 + ['mapped'] * 5 + ['gate2', 'ket', 'bra', 'discard',
                                         'swap', 'scalar', 'builder',
                                         'frobenius']


def circuit(c, kinds=KINDS, most=4, steps=None):
    ready = c.p(.3)
    g = Tk(c, 'q' * c.int(0, 0 if ready else 3), most)
    if ready:
        # preparations first and effects last, as the exporter wants it
        g.kets_first(c.int(1, most))
        kinds = ['gate'] * 6 + ['mapped'] * 5
        if c.p(.4):
            kinds += ['measure', 'measure', 'swap']
    elif not g.types:
        g.op_ket()
    for _ in range(c.int(1, 8) if steps is None else steps):
        g.step(kinds)
    # close or measure what is left, in any order
    order = list(range(len(g.types)))
    keep = []
    for _ in order:
        spots = g.spots(1)
        if not spots:
            break
        pos = c.choice(spots)
        kind = c.choice(['measure', 'measure', 'bra', 'discard', 'open'])
        if kind == 'measure':
            g.add(Measure(), pos)
            g.ref.measure(pos)
            g.ops.append(('measure', pos))
        elif kind == 'bra':
            b = c.int(0, 1)
            g.add(Q.Bra(b), pos)
            g.ref.quantum(pos, 1, np.eye(2)[b])
            g.ops.append(('bra', pos, b))
        elif kind == 'discard':
            g.add(Q.Discard(), pos)
            g.ref.discard(pos)
            g.ops.append(('discard', pos))
    if c.p(.15) and len(g.types) > 1:
        g.op_swap()
    events(c, g)
    return g


def events(c, g):
    where = [o[1] for o in g.ops if o[0] == 'measure']
    if where:
        c.ev('measured')
    if len(where) > 1 and where != sorted(where):
        c.ev('unordered_bits')
    names = [o[0] for o in g.ops]
    if 'bra' in names:
        c.ev('post_selected')
        if any(n[0].isalpha() and n not in ('bra', 'measure', 'discard',
                                            'perm', 'scalar', 'sqrt')
               for n in names[names.index('bra'):]):
            c.ev('late_gate')
    if {'scalar', 'sqrt'} & set(names):
        c.ev('scaled')


def expressible(d):
    """Only boxes the exporter documents a pytket gate for."""
    for b in d.boxes:
        n = 0
        while isinstance(b, Controlled):
            b, n = b.controlled, n + 1
        if n and (getattr(b, 'z', 0) % 2
                  or not isinstance(b, (Q.Rotation,))
                  and b not in (Q.X, Q.Z)):
            return False
        if n > 2 or n == 2 and b != Q.X:
            return False
    return True


def bits_moved(g):
    names = [o[0] for o in g.ops]
    return 'measure' in names and 'perm' in names[names.index('measure'):]


def fam_export(c):
    g = circuit(c)
    g.note()
    d = g.diag
    before = repr(d)
    try:
        t = to_tk(d) if c.p(.5) else d.to_tk()
    except NotImplementedError as e:
        c.ev('refused')
        c.check(not expressible(d) or bits_moved(g), 'refused-needlessly',
                str(e))
        return
    except ValueError as e:
        c.ev('refused')
        c.check(bits_moved(g), 'refused-needlessly', str(e))
        return
    c.check(repr(d) == before, 'input-altered')
    c.ev('exported')
    want = g.ref.distribution()
    c.check(t.n_bits - len(t.post_selection) == want.ndim, 'bit-count')
    got = outcome(t)
    c.check(close(got, want, 1e-7), 'distribution',
            lambda: f'{t!r}: {got} != {want}')
    if c.p(.3):
        c.ev('copied')
        u = (copy.deepcopy(t) if c.p(.5)
             else pickle.loads(pickle.dumps(t)))
        c.check(close(outcome(u), want, 1e-7), 'copy')
        c.eq((u.post_selection, u.scalar), (t.post_selection, t.scalar),
             'copy')
        # exchange the classical bits of the copy
        n = u.n_bits
        perm = list(range(n))
        c.rng.shuffle(perm)
        full = np.moveaxis(run_tk(t), list(range(n)), perm)
        at = [slice(None)] * n
        for k, v in t.post_selection.items():
            at[perm[k]] = v
        marked = dict(t.post_selection)
        u.rename_units({TkBit(i): TkBit(j) for i, j in enumerate(perm)})
        c.ev('bits_renamed')
        c.check(close(outcome(u), full[tuple(at)] * t.scalar, 1e-7),
                'renamed', lambda: f'{perm}: {t!r} -> {u!r}')
        c.eq(t.post_selection, marked, 'copy-shares')
    if c.p(.5):
        c.ev('run_eval')
        ev = d.eval(backend=Exact())
        c.check(close(ev, want, 1e-7), 'eval-on-backend',
                lambda: f'{ev} != {want}')
    if c.p(.5):
        e = from_tk(t)
        c.ev('imported_back')
        c.check(e.cod == bit ** want.ndim and not e.dom, 'import-boundary')
        back = np.asarray(e.eval(mixed=True))
        c.check(close(back, want, 1e-7), 'imported-back',
                lambda: f'{e}: {back} != {want}')


def fam_batch(c):
    gs = [circuit(c, [k for k in KINDS if k != 'builder'], 3, c.int(1, 3))
          for _ in range(c.int(2, 4))]
    for g in gs:
        g.note()
    be = Exact()
    try:
        got = gs[0].diag.eval(*[g.diag for g in gs[1:]], backend=be)
    except (NotImplementedError, ValueError):
        c.ev('refused')
        c.check(not all(expressible(g.diag) for g in gs)
                or any(bits_moved(g) for g in gs), 'refused-needlessly')
        return
    c.ev('run_batch')
    c.check(len(got) == len(gs), 'batch-size')
    for x, g in zip(got, gs):
        want = g.ref.distribution()
        c.check(close(x, want, 1e-7), 'batch', lambda: f'{x} != {want}')


def fam_aer(c):
    """The same on pytket's own simulator, within sampling error."""
    from pytket.extensions.qiskit import AerBackend
    g = circuit(c, ['gate', 'mapped', 'swap', 'ket'], 3, c.int(2, 5))
    g.note()
    want = g.ref.distribution()
    if not expressible(g.diag) or bits_moved(g):
        c.skip('not expressible')
    if not any(o[0] in ('measure', 'bra') for o in g.ops):
        c.skip('nothing measured')
    c.ev('aer')
    n = 4096
    got = g.diag.eval(backend=AerBackend(), n_shots=n,
                      compilation=AerBackend().default_compilation_pass()
                      if c.p(.5) else None, seed=c.int(0, 10 ** 6))
    c.check(np.shape(got) == want.shape, 'aer-shape')
    sigma = np.sqrt(np.maximum(want * (1 - np.minimum(want, 1)), 0) / n)
    c.check((np.abs(got - want) <= 7 * sigma + 8 / n).all(), 'aer',
            lambda: f'{got} != {want}')


def fam_symbolic(c):
    """Parameters survive the translation with their scale."""
    g = Tk(c, 'qq')
    for _ in range(c.int(1, 3)):
        g.step(['gate', 'mapped', 'swap'])
    if not expressible(g.diag):
        c.skip('not expressible')
    d = g.diag
    names = ['alpha', 'b__n.r@n_0', 'x1']
    used, concrete = {}, d
    for _ in range(c.int(1, 4)):
        name = c.choice(names)
        s = Symbol(name)
        k = 1
        if c.p(.5):
            k = c.choice([-1, 2, .5, c.rng.uniform(.1, 2)])
            s = s * k if k != -1 else -s
            c.ev('scaled_symbol')
        used.setdefault(name, c.rng.uniform(-1, 1))
        r = c.choice(sorted(ROT))
        pos = c.int(0, 1)
        if c.p(.4):
            dist = c.choice([1, -1])
            d = d >> Controlled(ROT[r](s), dist)
            mat = qsim.controlled(2, 0 if dist > 0 else 1,
                                  [1] if dist > 0 else [0],
                                  qsim.rotation(r, k * used[name]))
            g.ref.gate(0, mat)
        else:
            d = d.then_at(ROT[r](s), pos)
            g.ref.gate(pos, qsim.rotation(r, k * used[name]))
        g.ops.append((r, name, k, pos))
    d = d >> Measure() @ Measure()
    g.ref.measure(0)
    g.ref.measure(1)
    g.note()
    c.ev('symbolic')
    want = g.ref.distribution()
    t = to_tk(d)
    c.eq({s.name for s in t.free_symbols()}, set(used), 'tk-symbols')
    t2 = t.copy()
    t2.symbol_substitution({sympy.Symbol(n): v for n, v in used.items()})
    got = run_tk(t2)
    c.check(close(got, want, 1e-7), 'symbolic', lambda: f'{got} != {want}')
    e = from_tk(t)
    c.eq({s.name for s in e.free_symbols}, set(used), 'symbols-back')
    order = sorted(e.free_symbols)
    back = np.asarray(e.lambdify(*order)(*[used[s.name] for s in order])
                      .eval(mixed=True))
    c.check(close(back, want, 1e-7), 'symbolic-back',
            lambda: f'{back} != {want}')


# -- importing ------------------------------------------------------------
def tk_gates(c, circ, qs, n):
    for _ in range(n):
        k = c.int(1, min(3, len(qs)))
        args = c.rng.sample(qs, k)
        if k > 1 and len(qs) > 2:
            c.ev('tk_distant')
        if k == 1:
            name = c.choice(['H', 'X', 'Y', 'Z', 'S', 'T', 'Sdg', 'Tdg',
                             'Rx', 'Ry', 'Rz'])
        elif k == 2:
            name = c.choice(['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP'])
        else:
            name = 'CCX'
        params = [c.choice([c.rng.uniform(0, 4), 0, 1, .5, -1.3])] * (
            'R' in name)
        circ.add_gate(getattr(OpType, name), params, args)


def tk_layer(c, circ, qs):
    """General states and measurement bases, so that every gate shows."""
    for q in qs:
        circ.add_gate(c.choice([OpType.Rx, OpType.Ry]),
                      [c.rng.uniform(.2, .8)], [q])


def fam_import(c):
    plain = c.p(.3)
    regs = plain and c.p(.5)
    n = c.choice([1, 2, 2, 3, 3, 3, 4])
    nb = n if c.p(.6) else c.int(0, n)
    if regs:
        c.ev('tk_registers')
        circ = TkCircuit()
        qs = ([Qubit('a', i) for i in range(n // 2)]
              + [Qubit('z', i) for i in range(n - n // 2)])
        bs = ([TkBit('k', i) for i in range(nb // 2)]
              + [TkBit('m', i) for i in range(nb - nb // 2)])
        for u in qs:
            circ.add_qubit(u)
        for u in bs:
            circ.add_bit(u)
    else:
        circ = TkCircuit(n, nb) if plain else Circuit(n, nb)
        qs, bs = circ.qubits, circ.bits
    if plain:
        c.ev('plain_tk')
    lively = c.p(.8)
    if lively:
        tk_layer(c, circ, qs)
    tk_gates(c, circ, qs, c.int(0, 6))
    # some bits may be measured before the gates on other qubits
    measured = c.rng.sample(qs, nb)
    if measured != sorted(measured):
        c.ev('tk_bits_permuted')
    free = list(qs)
    early = c.int(0, nb)
    for q, b in list(zip(measured, bs))[:early]:
        circ.Measure(q, b)
        free.remove(q)
    if free:
        tk_gates(c, circ, free, c.int(0, 3))
        if lively:
            tk_layer(c, circ, free)
    for q, b in list(zip(measured, bs))[early:]:
        circ.Measure(q, b)
    sel, scale, post = {}, 1, None
    want = run_tk(circ)
    if not plain:
        if nb and c.p(.5):
            c.ev('tk_post_select')
            sel = {i: c.int(0, 1) for i in c.rng.sample(range(nb),
                                                        c.int(1, nb))}
            circ.post_select(dict(sel))
            at = [slice(None)] * nb
            for k, v in sel.items():
                at[k] = v
            want = want[tuple(at)]
            circ.post_processing = Id(bit ** (nb - len(sel)))
        if c.p(.3):
            c.ev('tk_scale')
            scale = c.choice([2, .25, c.rng.uniform(.1, 4), 0])
            circ.scale(scale)
            want = want * scale
        if not sel and c.p(.3):
            # one more bit, whose output takes a place of our choice
            c.ev('tk_bit_added')
            at, value = c.int(0, nb), c.int(0, 1)
            circ.add_bit(TkBit(nb), at)
            circ.add_qubit(Qubit(n))
            if value:
                circ.X(n)
            circ.Measure(Qubit(n), TkBit(nb))
            ind = np.zeros(2)
            ind[value] = 1
            want = np.moveaxis(np.multiply.outer(want, ind), -1, at)
        if c.p(.3) and want.ndim:
            c.ev('tk_post_process')
            k = want.ndim
            t = c.np.uniform(size=(2,) * (k + 1))
            circ.post_process(Box('post', bit ** k, bit, t))
            want = np.tensordot(want, t, k)
    c.ev('from_tk')
    text = str(circ.get_commands())
    c.note(circ=text, sel=sel, scale=scale)
    c.sig(text, sorted(sel.items()), scale)
    c.sample(text)
    d = from_tk(circ)
    c.check(not d.dom and d.cod == bit ** want.ndim, 'from-tk-boundary',
            lambda: f'{d.cod} for {want.ndim} bits')
    got = np.asarray(d.eval(mixed=True))
    c.check(close(got, want, 1e-7), 'from-tk',
            lambda: f'{text}: {d}: {got} != {want}')


def fam_refuse(c):
    """What cannot be expressed is an error."""
    kind = c.choice(['gate', 'after', 'custom', 'expr'])
    c.note(kind)
    c.sig(kind, c.int(0, 10 ** 9))
    c.ev('tk_refused')
    n = c.int(1, 3)
    if kind == 'gate':
        circ = Circuit(n, n)
        tk_gates(c, circ, circ.qubits, 2)
        name, args, params = c.choice(
            [('V', 1, 0), ('U3', 1, 3), ('SX', 1, 0), ('Reset', 1, 0),
             ('U1', 1, 1)] + [('ISWAP', 2, 1), ('ZZPhase', 2, 1),
                              ('CU1', 2, 1), ('CS', 2, 0)] * (n > 1))
        circ.add_gate(getattr(OpType, name), [.3] * params,
                      circ.qubits[:args])
        for i in range(n):
            circ.Measure(i, i)
        c.raises(Exception, lambda: from_tk(circ), mechanism='unknown-gate')
    elif kind == 'after':
        circ = Circuit(n, n)
        circ.H(0)
        circ.Measure(0, 0)
        if n == 1 or c.p(.4):
            circ.H(0)
        elif n == 2 or c.p(.6):     # not as its first qubit
            getattr(circ, c.choice(['CX', 'CZ', 'SWAP']))(n - 1, 0)
        else:
            qs = [1, 2]
            qs.insert(c.int(1, 2), 0)
            circ.CCX(*qs)
        for i in range(1, n):
            circ.Measure(i, i)
        if c.p(.5):
            circ.post_select({0: 0})
            circ.post_processing = Id(bit ** (n - 1))
        c.raises(Exception, lambda: from_tk(circ),
                 mechanism='gate-after-measurement')
    elif kind == 'custom':
        box = Box('weird', qubit ** n, qubit ** n,
                  c.np.normal(size=(2,) * (2 * n)))
        d = Q.Ket(*[0] * n).to_diagram() >> box if n > 1 else Q.Ket(0) >> box
        c.raises(Exception, lambda: d.to_tk(), mechanism='custom-box')
    else:
        circ = Circuit(1)
        a, b = sympy.symbols('a b')
        circ.Rx(c.choice([a + b, a * b, a ** 2, a + 1]), 0)
        c.raises(Exception, lambda: from_tk(circ), mechanism='expression')


FAMILIES = [
    Family('export', fam_export, 700),
    Family('batch', fam_batch, 60),
    Family('aer', fam_aer, 40),
    Family('symbolic', fam_symbolic, 120),
    Family('import', fam_import, 400),
    Family('refuse', fam_refuse, 60),
]
