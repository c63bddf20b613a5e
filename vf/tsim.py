"""Reference tensor semantics, kept apart from lambeq: a process is an array
whose axes are the inputs followed by the current wires, and every operation
is applied with einsum as the diagram is built."""
import itertools
import string

import numpy as np


class Ref:
    def __init__(self, dims):
        dims = tuple(dims)
        n = int(np.prod(dims))
        self.ins = dims
        self.arr = np.eye(n).reshape(dims + dims)

    @property
    def wires(self):
        return self.arr.shape[len(self.ins):]

    def apply(self, pos, k, tensor):
        """`tensor`: k input axes, then the output axes."""
        m = len(self.ins)
        a = self.arr
        axes = list(range(m + pos, m + pos + k))
        out = np.tensordot(a, tensor, (axes, list(range(k))))
        new = tensor.ndim - k
        rest = a.ndim - k
        order = (list(range(m + pos)) + list(range(rest, rest + new))
                 + list(range(m + pos, rest)))
        self.arr = out.transpose(order)

    def scale(self, s):
        self.arr = self.arr * s


def delta(d, legs):
    """The copy tensor."""
    out = np.zeros((d,) * legs)
    if not legs:
        return np.array(float(d)) if d > 1 else np.array(1.)
    for i in range(d):
        out[(i,) * legs] = 1
    return out


def conj_reversed(arr, n_dom):
    """The horizontal reflection: wires mirrored, entries conjugated."""
    k = arr.ndim
    return np.conj(arr.transpose(list(range(n_dom))[::-1]
                                 + list(range(n_dom, k))[::-1]))


def adjoint(arr, n_dom):
    k = arr.ndim
    return np.conj(arr.transpose(list(range(n_dom, k))
                                 + list(range(n_dom))))


def close(got, want, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if not want.size:
        return True
    scale = max(1.0, float(np.abs(want).max()))
    return bool(np.abs(got - want).max() <= tol * scale)
