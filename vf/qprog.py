"""Random circuits built side by side with their reference meaning."""
import numpy as np

from lambeq.backend import quantum as Q
from lambeq.backend.quantum import (Bit, Box, Bra, Controlled, Discard,
                                    Encode, Id, Ket, Measure, MixedState, Rx,
                                    Ry, Rz, Scalar, Sqrt, Swap, bit, qubit)
from vf import qsim
from vf.qsim import QRef
from vf.tsim import adjoint, conj_reversed

ROT = {'Rx': Rx, 'Ry': Ry, 'Rz': Rz}
ONE = ['H', 'S', 'T', 'X', 'Y', 'Z']


def ty(types):
    out = Q.Ty()
    for t in types:
        out = out @ (qubit if t == 'q' else bit)
    return out


def phase(c):
    return c.choice([c.rng.uniform(-1, 1), c.rng.uniform(-1, 1),
                     c.rng.uniform(1, 4), 0, 0., .5, .25, 1, -.5])


def conj_map(mat):
    """The reflected gate: qubits mirrored, entries conjugated."""
    n = int(np.log2(mat.shape[0]))
    t = conj_reversed(qsim.tensor_of(mat), n)
    return t.reshape(2 ** n, 2 ** n).T


class Prog:
    """`diag` and `ref` always describe the same process."""

    complex_roots = False

    def __init__(self, c, types=(), most=4, names=None):
        self.c = c
        self.diag = Id(ty(types))
        self.ref = QRef(types)
        self.ops = []
        self.most = most

    @property
    def types(self):
        return self.ref.types

    def room(self):
        return self.most - len(self.types)

    def add(self, box, pos):
        c = self.c
        if c.p(.6):
            self.diag = self.diag.then_at(box, pos)
        else:
            t = ty(self.types)
            self.diag = self.diag >> (Id(t[:pos]) @ box
                                      @ Id(t[pos + len(box.dom):]))

    def spots(self, k, kind='q'):
        return [i for i in range(len(self.types) - k + 1)
                if all(t == kind for t in self.types[i:i + k])]

    def param(self):
        """A parameter and its value."""
        p = phase(self.c)
        return p, p

    # -- gates ------------------------------------------------------------
    def single(self):
        """A random one-qubit gate: (box, matrix, name)."""
        c = self.c
        k = c.choice(['fixed'] * 4 + ['rot'] * 4 + ['custom'])
        if k == 'fixed':
            n = c.choice(ONE)
            box, mat = getattr(Q, n), qsim.FIXED[n]
        elif k == 'rot':
            n = c.choice(sorted(ROT))
            p, v = self.param()
            box, mat = ROT[n](p), qsim.rotation(n, v)
        else:
            n = 'custom'
            box, mat = self.custom(1)
        c.ev(n)
        return box, mat, n

    def custom(self, n, out=None):
        c = self.c
        out = n if out is None else out
        mat = (c.np.normal(size=(2 ** out, 2 ** n))
               + 1j * c.np.normal(size=(2 ** out, 2 ** n))) / 2
        name = f'f{len(self.ops)}{c.choice("abc")}'
        data = qsim.tensor_of(mat)
        if c.p(.3):
            data = data.reshape(-1)
        return Box(name, qubit ** n, qubit ** out, data), mat

    def vary(self, box, mat, name):
        c = self.c
        if c.p(.3):
            box, mat = box.dagger(), mat.conj().T
            c.ev('dagger')
            name += '†'
        if c.p(.2):
            z = c.choice([1, -1, 1, 2, 3])
            box = box.rotate(z)
            if z % 2:
                mat = conj_map(mat)
                name += "'"
            c.ev('rotated')
        if c.p(.1):
            box, mat = box.dagger(), mat.conj().T
            name += '†'
        return box, mat, name

    def op_gate(self):
        spots = self.spots(1)
        if spots:
            pos = self.c.choice(spots)
            box, mat, n = self.vary(*self.single())
            self.add(box, pos)
            self.ref.gate(pos, mat)
            self.ops.append((n, pos))

    def gate2(self):
        c = self.c
        if c.p(.4):
            return Swap(qubit, qubit), qsim.FIXED['SWAP'], 'SWAP'
        box, mat = self.custom(2)
        return box, mat, 'custom2'

    def op_gate2(self):
        spots = self.spots(2)
        if spots:
            pos = self.c.choice(spots)
            box, mat, n = self.vary(*self.gate2())
            self.add(box, pos)
            self.ref.gate(pos, mat)
            self.ops.append((n, pos))

    def control(self, box, mat, n, width):
        """Add one control to a gate, within `width` qubits in all."""
        c = self.c
        k = int(np.log2(mat.shape[0]))
        d = c.int(1, width - k) * c.choice([1, -1])
        total = k + abs(d)
        if d > 0:
            out = qsim.controlled(total, 0, list(range(d, total)), mat)
        else:
            out = qsim.controlled(total, total - 1, list(range(k)), mat)
        c.ev('control_left' if d > 0 else 'control_right')
        if abs(d) > 1:
            c.ev('distant_control')
        return Controlled(box, d), out, f'C{d}({n})'

    def op_controlled(self):
        c = self.c
        wide = max((k for k in range(2, 5) if self.spots(k)), default=0)
        if not wide:
            return
        if wide > 2 and c.p(.25):
            box, mat, n = self.vary(*self.gate2())
            c.ev('controlled_two_qubit')
        else:
            box, mat, n = self.vary(*self.single())
        depth = 0
        while True:
            k = int(np.log2(mat.shape[0]))
            if k >= wide or depth and c.p(.5):
                break
            box, mat, n = self.control(box, mat, n, wide)
            depth += 1
        c.ev('controlled')
        if depth > 1:
            c.ev('nested_control')
        box, mat, n = self.vary(box, mat, n)
        k = int(np.log2(mat.shape[0]))
        pos = c.choice(self.spots(k))
        self.add(box, pos)
        self.ref.gate(pos, mat)
        self.ops.append((n, pos))

    def op_builder(self):
        """The gate methods of a circuit, with explicit qubit indices."""
        c = self.c
        qs = self.spots(1)
        k = c.choice([1, 2, 2, 3])
        if len(qs) < k or 'b' in self.types and not self._contiguous(qs):
            return
        idx = c.rng.sample(qs, k)
        if 'b' in self.types[min(idx):max(idx) + 1]:
            return
        n = len(self.types)
        at = [sum(t == 'q' for t in self.types[:i]) for i in idx]
        nq = sum(t == 'q' for t in self.types)
        c.ev('builder')
        if k == 1:
            name = c.choice(ONE + sorted(ROT))
            p, v = self.param() if name in ROT else (0, 0)
            args = (p,) if name in ROT else ()
            u = qsim.rotation(name, v) if args else qsim.FIXED[name]
            lo, width, mat = idx[0], 1, u
        elif k == 2:
            name = c.choice(['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP',
                             'SWAP'])
            p, v = self.param() if 'R' in name else (0, 0)
            args = (p,) if 'R' in name else ()
            u = (qsim.rotation(name[1:], v) if args else
                 qsim.FIXED[name if name == 'SWAP' else name[1:]])
            lo, width = min(idx), max(idx) - min(idx) + 1
            rel = [i - lo for i in idx]
            if name == 'SWAP':
                mat = qsim.on(width, rel, u)
                if width > 2:
                    c.ev('distant_builder_swap')
            else:
                mat = qsim.controlled(width, rel[0], [rel[1]], u)
        else:
            name = c.choice(['CCX', 'CCZ'])
            args = ()
            lo, width = min(idx), max(idx) - min(idx) + 1
            rel = [i - lo for i in idx]
            mat = qsim.controlled(width, rel[:2], [rel[2]],
                                  qsim.FIXED[name[-1]])
        self.diag = getattr(self.diag, name)(*args, *idx)
        self.ref.gate(lo, mat)
        self.ops.append((f'.{name}', tuple(idx)))

    @staticmethod
    def _contiguous(qs):
        return qs == list(range(qs[0], qs[-1] + 1)) if qs else False

    # -- the rest ---------------------------------------------------------
    def op_ket(self):
        c = self.c
        if self.room() < 1:
            return
        n = c.int(1, min(2, self.room()))
        bits = [c.int(0, 1) for _ in range(n)]
        pos = c.int(0, len(self.types))
        box = Ket(*bits)
        if c.p(.2):
            box = Bra(*bits).dagger()
        self.add(box, pos)
        for i, b in enumerate(bits):
            self.ref.quantum(pos + i, 0, np.eye(2)[b])
        c.ev('ket')
        self.ops.append(('ket', pos, tuple(bits)))

    def kets_first(self, n):
        """Prepare `n` qubits, left to right."""
        while len(self.types) < n:
            bits = [self.c.int(0, 1)
                    for _ in range(self.c.int(1, n - len(self.types)))]
            pos = len(self.types)
            self.add(Ket(*bits), pos)
            for i, b in enumerate(bits):
                self.ref.quantum(pos + i, 0, np.eye(2)[b])
            self.ops.append(('ket', pos, tuple(bits)))
        self.c.ev('ready')

    def op_bra(self):
        c = self.c
        n = c.int(1, 2)
        spots = self.spots(n)
        if not spots:
            return
        pos = c.choice(spots)
        bits = [c.int(0, 1) for _ in range(n)]
        box = Bra(*bits)
        if c.p(.2):
            box = Ket(*bits).dagger()
        self.add(box, pos)
        for b in bits:
            self.ref.quantum(pos, 1, np.eye(2)[b])
        c.ev('bra')
        self.ops.append(('bra', pos, tuple(bits)))

    def op_scalar(self):
        c = self.c
        if c.p(.5):
            x = c.choice([2, 4, .5, c.rng.uniform(.1, 3)])
            if c.p(.15) and self.complex_roots:
                x = x + 1j * c.rng.uniform(-2, 2)
                c.ev('complex_root')
            box, s, n = Sqrt(x), np.sqrt(x), 'sqrt'
        else:
            s = c.choice([c.rng.uniform(-2, 2), c.rng.uniform(-2, 2)
                          + 1j * c.rng.uniform(-2, 2)])
            box, n = Scalar(s), 'scalar'
        if c.p(.3):
            box, s = box.dagger(), np.conj(s)
        if c.p(.2):
            box, s = box.rotate(1), np.conj(s)
        self.add(box, c.int(0, len(self.types)))
        self.ref.scale(s)
        c.ev(n)
        self.ops.append((n,))

    def op_swap(self):
        c = self.c
        n = len(self.types)
        if n < 2:
            return
        if c.p(.25):
            perm = list(range(n))
            c.rng.shuffle(perm)
            self.diag = self.diag >> Q.Diagram.permutation(
                ty(self.types), perm)
            c.ev('permutation')
        else:
            i = c.int(0, n - 2)
            perm = list(range(n))
            perm[i], perm[i + 1] = i + 1, i
            a, b = ty(self.types[i]), ty(self.types[i + 1])
            box = Swap(a, b)
            if c.p(.2):
                box = Swap(b, a).dagger()
            self.add(box, i)
            kind = ''.join(sorted(self.types[i:i + 2]))
            c.ev({'qq': 'swap', 'bb': 'bit_swap', 'bq': 'mixed_swap'}[kind])
        self.ref.permute(perm)
        self.ops.append(('perm', tuple(perm)))

    def op_frobenius(self):
        """Cups, caps and spiders of qubits."""
        c = self.c
        k = c.choice(['cup', 'cap', 'spider'])
        if k == 'cup':
            n = c.int(1, 2)
            spots = self.spots(2 * n)
            if not spots:
                return
            pos = c.choice(spots)
            self.add(Q.Diagram.cups(qubit ** n, qubit ** n), pos)
            t = np.eye(2 ** n).reshape([2] * (2 * n))
            t = t.transpose(list(range(n)) + list(range(n, 2 * n))[::-1])
            self.ref.quantum(pos, 2 * n, t)
        elif k == 'cap':
            n = c.int(1, 2)
            if self.room() < 2 * n:
                return
            pos = c.int(0, len(self.types))
            self.add(Q.Diagram.caps(qubit ** n, qubit ** n), pos)
            t = np.eye(2 ** n).reshape([2] * (2 * n))
            t = t.transpose(list(range(n)) + list(range(n, 2 * n))[::-1])
            self.ref.quantum(pos, 0, t)
        else:
            i = c.int(0, 3)
            spots = self.spots(i)
            if not spots:
                return
            o = c.int(0, max(0, min(4, self.room() + i)))
            if i + o == 0:
                return
            pos = c.choice(spots)
            self.add(Q.Diagram.special_boxes['spider'](qubit, i, o), pos)
            self.ref.quantum(pos, i, qsim.delta(2, i + o))
            k = f'spider{i}{o}'
            c.ev('spider')
        c.ev(k)
        self.ops.append((k, pos))

    def op_shape(self):
        """A custom map between different numbers of qubits."""
        c = self.c
        i = c.int(0, 2)
        spots = self.spots(i)
        if not spots:
            return
        o = c.int(0, max(0, min(2, self.room() + i)))
        pos = c.choice(spots)
        box, mat = self.custom(i, o)
        t = qsim.tensor_of(mat)
        if c.p(.3):
            box, mat = self.custom(o, i)
            box, t = box.dagger(), adjoint(qsim.tensor_of(mat), o)
        if c.p(.3):
            box, t = box.rotate(1), conj_reversed(t, i)
        self.add(box, pos)
        self.ref.quantum(pos, i, t)
        c.ev('custom_shape')
        self.ops.append(('shape', pos, i, o))

    # -- classical and mixed ----------------------------------------------
    def op_bit(self):
        c = self.c
        if self.room() < 1:
            return
        n = c.int(1, min(2, self.room()))
        bits = [c.int(0, 1) for _ in range(n)]
        pos = c.int(0, len(self.types))
        self.add(Bit(*bits), pos)
        for i, b in enumerate(bits):
            self.ref.classical(pos + i, 0, np.eye(2)[b])
        c.ev('bit')
        self.ops.append(('bit', pos, tuple(bits)))

    def op_unbit(self):
        c = self.c
        spots = self.spots(1, 'b')
        if not spots:
            return
        pos, b = c.choice(spots), c.int(0, 1)
        self.add(Bit(b).dagger(), pos)
        self.ref.classical(pos, 1, np.eye(2)[b])
        c.ev('bit_effect')
        self.ops.append(('unbit', pos, b))

    def op_classical(self):
        c = self.c
        i = c.int(0, 2)
        o = c.int(0, max(0, min(2, self.room() + i)))
        spots = self.spots(i, 'b')
        if not spots or i + o == 0:
            return
        pos = c.choice(spots)
        t = c.np.uniform(size=(2,) * (i + o))
        box = Box(f'c{len(self.ops)}', bit ** i, bit ** o, t)
        if c.p(.3):
            t = c.np.uniform(size=(2,) * (i + o))
            box = Box(f'c{len(self.ops)}', bit ** o, bit ** i, t).dagger()
            t = adjoint(t, o)
        self.add(box, pos)
        self.ref.classical(pos, i, t)
        c.ev('classical')
        self.ops.append(('classical', pos, i, o))

    def op_measure(self):
        spots = self.spots(1)
        if spots:
            pos = self.c.choice(spots)
            self.add(Measure() if self.c.p(.8) else Encode().dagger(), pos)
            self.ref.measure(pos)
            self.c.ev('measure')
            self.ops.append(('measure', pos))

    def op_encode(self):
        spots = self.spots(1, 'b')
        if spots:
            pos = self.c.choice(spots)
            self.add(Encode() if self.c.p(.8) else Measure().dagger(), pos)
            self.ref.encode(pos)
            self.c.ev('encode')
            self.ops.append(('encode', pos))

    def op_discard(self):
        spots = self.spots(1)
        if spots:
            pos = self.c.choice(spots)
            self.add(Discard() if self.c.p(.8) else MixedState().dagger(),
                     pos)
            self.ref.discard(pos)
            self.c.ev('discard')
            self.ops.append(('discard', pos))

    def op_mixedstate(self):
        if self.room() > 0:
            pos = self.c.int(0, len(self.types))
            self.add(MixedState() if self.c.p(.8) else Discard().dagger(),
                     pos)
            self.ref.mixed_state(pos)
            self.c.ev('mixed_state')
            self.ops.append(('mixedstate', pos))

    def op_superop(self):
        """A box given by any map between mixed states."""
        c = self.c
        i = c.int(0, min(2, len(self.types)))
        pos = c.int(0, len(self.types) - i)
        ins = self.types[pos:pos + i]
        outs = [c.choice('qqb') for _ in range(
            c.int(0, max(0, min(2, self.room() + i))))]
        flip, rot = c.p(.3), c.p(.3)
        doms = [outs, ins] if flip else [ins, outs]
        if rot:
            doms = [t[::-1] for t in doms]
        widths = [sum(2 if t == 'q' else 1 for t in d) for d in doms]
        arr = (c.np.normal(size=(2,) * sum(widths))
               + 1j * c.np.normal(size=(2,) * sum(widths))) * .7
        # as it is given: bits, kets, bras, of the inputs first
        order, at = [], 0
        for d in doms:
            bits, kets, bras = [], [], []
            for t in d:
                if t == 'q':
                    kets.append(at)
                    bras.append(at + 1)
                    at += 2
                else:
                    bits.append(at)
                    at += 1
            order += bits + kets + bras
        box = Box(f'm{len(self.ops)}', ty(doms[0]), ty(doms[1]),
                  arr.transpose(order), is_mixed=True)
        if rot:
            box = box.rotate(c.choice([1, -1]))
            order, at = [], 0
            for d in doms:
                legs = []
                for t in d:
                    n = 2 if t == 'q' else 1
                    legs.append(list(range(at, at + n)))
                    at += n
                order += [x for leg in legs[::-1] for x in leg]
            arr = arr.conj().transpose(order)
        if flip:
            box = box.dagger()
            arr = np.moveaxis(arr.conj(), range(widths[0]),
                              range(-widths[0], 0))
        self.add(box, pos)
        self.ref.channel(pos, i, arr, outs)
        c.ev('superop')
        for k, f in [('superop_dagger', flip), ('superop_rotated', rot)]:
            if f:
                c.ev(k)
        self.ops.append(('superop', pos, tuple(ins), tuple(outs), flip, rot))

    PURE = (['gate'] * 5 + ['controlled'] * 4 + ['gate2', 'builder',
            'builder', 'ket', 'bra', 'scalar', 'swap', 'frobenius',
            'shape'])
    MIXED = PURE + ['measure', 'encode', 'discard', 'mixedstate', 'bit',
                    'unbit', 'classical', 'swap']

    def step(self, kinds):
        getattr(self, 'op_' + self.c.choice(kinds))()

    def note(self):
        c = self.c
        ins = ''.join(self.ref.ins)
        c.note(ins=ins, ops=self.ops)
        c.sig(ins, tuple(self.ops))
        c.sample(f'{ins} -> {"".join(self.types)}: {self.ops}')
