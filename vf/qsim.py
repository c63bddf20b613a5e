"""Reference quantum semantics, kept apart from lambeq.

Matrices are [out, in]; tensors given to `Ref.apply` are [in..., out...].
A rotation by `p` is exp(-i*pi*p*P): phases are full turns.
Every qubit wire of a mixed process has a ket axis and a bra axis, every bit
wire a single axis.
"""
import numpy as np

from vf.tsim import Ref, delta

PX = np.array([[0, 1], [1, 0]], complex)
PY = np.array([[0, -1j], [1j, 0]])
PZ = np.diag([1, -1]).astype(complex)
FIXED = {
    'H': (PX + PZ) / np.sqrt(2),
    'S': np.diag([1, 1j]),
    'T': np.diag([1, np.exp(1j * np.pi / 4)]),
    'X': PX, 'Y': PY, 'Z': PZ,
    'SWAP': np.eye(4)[[0, 2, 1, 3]].astype(complex),
}
PAULI = {'Rx': PX, 'Ry': PY, 'Rz': PZ}


def rotation(axis, phase):
    return (np.cos(np.pi * phase) * np.eye(2)
            - 1j * np.sin(np.pi * phase) * PAULI[axis])


def on(n, targets, u):
    """The matrix of `u` acting on `targets` (in order) of `n` qubits."""
    k = len(targets)
    full = np.eye(2 ** n, dtype=complex).reshape([2] * (2 * n))
    out = np.tensordot(u.reshape([2] * (2 * k)), full,
                       (list(range(k, 2 * k)), list(targets)))
    rest = [i for i in range(n) if i not in targets]
    where = list(targets) + rest
    out = out.transpose([where.index(i) for i in range(n)]
                        + list(range(n, 2 * n)))
    return out.reshape(2 ** n, 2 ** n)


def controlled(n, control, targets, u):
    """`u` on `targets` when `control` (one qubit or several) is set."""
    control = [control] if isinstance(control, int) else list(control)
    k = len(targets)
    big = np.eye(2 ** (k + len(control)), dtype=complex)
    big[-2 ** k:, -2 ** k:] = u
    return on(n, control + list(targets), big)


def tensor_of(matrix):
    """[out, in] matrix on qubits as an [in..., out...] tensor."""
    rows, cols = (int(np.log2(x)) for x in matrix.shape)
    return matrix.T.reshape([2] * (cols + rows))


def doubled(tensor, k_in):
    """A pure tensor as a map on (ket, bra) pairs, interleaved."""
    k = tensor.ndim
    out = np.multiply.outer(tensor, np.conj(tensor))
    return out.transpose([i // 2 + (k if i % 2 else 0)
                          for i in range(2 * k)])


class QRef:
    """A process on qubits ('q') and bits ('b') with its pure form while
    there is one."""

    def __init__(self, types):
        self.ins = list(types)
        self.types = list(types)
        self.mixed = Ref([2] * sum(self._w(t) for t in types))
        self.pure = Ref([2] * len(types))

    @staticmethod
    def _w(t):
        return 2 if t == 'q' else 1

    def at(self, pos):
        return sum(self._w(t) for t in self.types[:pos])

    def _put(self, pos, k, tensor, out):
        width = sum(self._w(t) for t in self.types[pos:pos + k])
        self.mixed.apply(self.at(pos), width, tensor)
        self.types[pos:pos + k] = out

    def quantum(self, pos, k, tensor):
        """A pure map on `k` qubits, [in..., out...]."""
        assert all(t == 'q' for t in self.types[pos:pos + k])
        if self.pure is not None:
            self.pure.apply(pos, k, tensor)
        self._put(pos, k, doubled(tensor, k), ['q'] * (tensor.ndim - k))

    def gate(self, pos, matrix):
        t = tensor_of(matrix)
        self.quantum(pos, int(np.log2(matrix.shape[1])), t)

    def classical(self, pos, k, tensor):
        assert all(t == 'b' for t in self.types[pos:pos + k])
        if self.pure is not None:
            self.pure.apply(pos, k, tensor)
        self._put(pos, k, tensor, ['b'] * (tensor.ndim - k))

    def channel(self, pos, k, tensor, out):
        """A mixed map: axes are the (ket, bra) pairs and bits in wire
        order, inputs first."""
        self.pure = None
        self._put(pos, k, tensor, list(out))

    def measure(self, pos):
        self.channel(pos, 1, delta(2, 3), 'b')

    def encode(self, pos):
        self.channel(pos, 1, delta(2, 3), 'q')

    def discard(self, pos):
        self.channel(pos, 1, np.eye(2), '')

    def mixed_state(self, pos):
        self.channel(pos, 0, np.eye(2), 'q')

    def scale(self, s):
        if self.pure is not None:
            self.pure.scale(s)
        self.mixed.scale(abs(s) ** 2)

    def permute(self, perm):
        """Wire i of the result is wire perm[i] of the current one."""
        if self.pure is not None:
            m = len(self.ins)
            self.pure.arr = self.pure.arr.transpose(
                list(range(m)) + [m + p for p in perm])
        m = len(self.mixed.ins)
        axes = []
        for p in perm:
            axes += range(m + self.at(p), m + self.at(p)
                          + self._w(self.types[p]))
        self.mixed.arr = self.mixed.arr.transpose(list(range(m)) + axes)
        self.types = [self.types[p] for p in perm]

    def _order(self, types, start):
        bits, kets, bras, i = [], [], [], start
        for t in types:
            if t == 'b':
                bits.append(i)
                i += 1
            else:
                kets.append(i)
                bras.append(i + 1)
                i += 2
        return bits + kets + bras

    def mixed_array(self):
        """Bits, then kets, then bras; inputs first."""
        m = len(self.mixed.ins)
        return self.mixed.arr.transpose(
            self._order(self.ins, 0) + self._order(self.types, m))

    def distribution(self):
        """Of the bits, once every remaining qubit is discarded and every
        input is zero."""
        a = self.mixed.arr[(0,) * len(self.mixed.ins)]
        keep, i = [], 0
        ops = []
        for t in self.types:
            if t == 'b':
                keep.append(i)
                ops.append(i)
                i += 1
            else:
                ops += [i, i]
                i += 1
        out = np.einsum(a, ops, keep)
        return out if np.abs(out.imag).max() > 1e-9 else out.real
