"""Independent semantics of grammar diagrams: boxes are random complex
tensors, wires are index sets, and layers are contracted one by one with
plain numpy.  Nothing here calls lambeq's evaluation code."""
from __future__ import annotations

import hashlib
import zlib

import numpy as np

from lambeq.backend import grammar as G
from vf.core import Violation
from vf.gen import flat


class TooBig(Exception):
    pass


class Interp:
    """Dimension per atomic name, one random array per (name, type)."""

    def __init__(self, seed=0, dims=None, conj_rotation=True):
        self.seed = seed
        self.dims = dims or {}
        self.conj = conj_rotation
        self.cache = {}

    def dim(self, name):
        if name not in self.dims:
            self.dims[name] = 2 + zlib.crc32(
                f'{self.seed}/{name}'.encode()) % 2
        return self.dims[name]

    def shape(self, ty):
        return tuple(self.dim(n) for n, _ in flat(ty))

    def array(self, box, kind=''):
        """dom axes then cod axes of an unrotated box."""
        key = (kind, box.name, flat(box.dom), flat(box.cod))
        if key not in self.cache:
            h = int.from_bytes(hashlib.blake2b(
                repr((self.seed, key)).encode(), digest_size=8).digest(),
                'big')
            r = np.random.default_rng(h)
            sh = self.shape(box.dom) + self.shape(box.cod)
            self.cache[key] = (r.normal(size=sh) + 1j * r.normal(size=sh))
        return self.cache[key]

    def box(self, box):
        """Array of any box, axes dom + cod."""
        if isinstance(box, G.Swap):
            a, b = self.shape(box.left)[0], self.shape(box.right)[0]
            return np.einsum('ad,bc->abcd', np.eye(a), np.eye(b))
        if isinstance(box, G.Cup) or isinstance(box, G.Cap):
            return np.eye(self.shape(box.left)[0], dtype=complex)
        if isinstance(box, G.Spider):
            d = self.shape(box.type)[0]
            n = box.n_legs_in + box.n_legs_out
            if d ** n > 2 ** 22:
                raise TooBig
            arr = np.zeros((d,) * n, dtype=complex)
            if n == 0:
                return np.array(complex(d))
            for i in range(d):
                arr[(i,) * n] = 1
            return arr
        if isinstance(box, (G.Daggered, G.DaggeredFrame)):
            inner = box.box if isinstance(box, G.Daggered) else box.frame
            a = self.box(inner)
            n = len(flat(inner.dom))
            k = a.ndim
            return a.transpose(list(range(n, k)) + list(range(n))).conj()
        # plain box or word at winding z
        z = box.z
        if z == 0:
            return self.array(box)
        n = len(flat(box.dom))
        base = box.rotate(-z)
        if base.z != 0:
            raise AssertionError('rotation did not unwind')
        a = self.array(base)
        if z % 2 == 0:
            return a
        k = a.ndim
        a = a.transpose(list(reversed(range(n))) +
                        list(reversed(range(n, k))))
        return a.conj() if self.conj else a

    def __call__(self, diagram, limit=2 ** 20):
        """Tensor of a diagram, axes dom then cod."""
        dom = self.shape(diagram.dom)
        nd = len(dom)
        size = int(np.prod(dom)) if dom else 1
        if size * size > limit:
            raise TooBig
        t = np.eye(size, dtype=complex).reshape(dom + dom)
        for lay in diagram.layers:
            left, b, right = lay.left, lay.box, lay.right
            i, n = len(flat(left)), len(flat(b.dom))
            a = self.box(b)
            m = a.ndim - n
            if t.shape[nd + i:nd + i + n] != a.shape[:n]:
                raise Violation('ill-typed', f'{b!r} after {i} wires of '
                                f'{t.shape[nd:]} takes {a.shape[:n]}')
            if t.size * a.size > limit * 16:
                raise TooBig
            t = np.tensordot(t, a, axes=(
                list(range(nd + i, nd + i + n)), list(range(n))))
            # new axes are at the end: move them to position nd+i
            k = t.ndim
            order = (list(range(nd + i)) + list(range(k - m, k))
                     + list(range(nd + i, k - m)))
            t = t.transpose(order)
            if t.size > limit:
                raise TooBig
        return t


def box_key(b):
    """Structural identity of a box, independent of ==/hash/repr."""
    cls = type(b).__name__
    if isinstance(b, (G.Frame, G.DaggeredFrame)):
        return (cls, b.name, flat(b.dom), flat(b.cod), b.z,
                tuple(any_key(x) for x in b.components))
    if isinstance(b, G.Daggered):
        return (cls, box_key(b.box))
    if isinstance(b, G.Spider):
        return (cls, flat(b.type), b.n_legs_in, b.n_legs_out)
    return (cls, b.name, flat(b.dom), flat(b.cod), b.z)


def key(d):
    """Structural identity of a diagram."""
    return ('D', flat(d.dom), flat(d.cod), tuple(
        (flat(x.left), box_key(x.box), flat(x.right)) for x in d.layers))


def any_key(x):
    if isinstance(x, G.Ty):
        return ('T', flat(x))
    if hasattr(x, 'layers') and isinstance(x, G.Diagram):
        return key(x)
    if isinstance(x, G.Layer):
        return ('L', flat(x.left), box_key(x.box), flat(x.right))
    return box_key(x)


def typing_error(d):
    """None if the diagram is well typed, else a description."""
    if not isinstance(d, G.Diagram):
        return f'not a diagram: {type(d)}'
    cur = flat(d.dom)
    for k, lay in enumerate(d.layers):
        b = lay.box
        dom = flat(lay.left) + flat(b.dom) + flat(lay.right)
        if dom != cur:
            return f'layer {k}: domain {dom} follows {cur}'
        e = box_error(b)
        if e:
            return f'layer {k}: {e}'
        cur = flat(lay.left) + flat(b.cod) + flat(lay.right)
    if cur != flat(d.cod):
        return f'codomain {flat(d.cod)} but the last layer ends at {cur}'
    return None


def box_error(b):
    if isinstance(b, (G.Cup, G.Cap)):
        l, r = flat(b.left), flat(b.right)
        if len(l) != 1 or len(r) != 1 or l[0][0] != r[0][0] \
                or abs(l[0][1] - r[0][1]) != 1:
            return f'{type(b).__name__} of non-adjoint {l}, {r}'
        want = ((), l + r) if isinstance(b, G.Cap) else (l + r, ())
        if (flat(b.dom), flat(b.cod)) != want:
            return f'{type(b).__name__} with type {flat(b.dom)}->{flat(b.cod)}'
    elif isinstance(b, G.Swap):
        l, r = flat(b.left), flat(b.right)
        if (flat(b.dom), flat(b.cod)) != (l + r, r + l):
            return 'swap with wrong type'
    elif isinstance(b, G.Spider):
        t = flat(b.type)
        if (flat(b.dom), flat(b.cod)) != (t * b.n_legs_in,
                                          t * b.n_legs_out):
            return 'spider with wrong type'
    elif isinstance(b, G.Daggered):
        if (flat(b.dom), flat(b.cod)) != (flat(b.box.cod), flat(b.box.dom)):
            return 'dagger with wrong type'
    elif isinstance(b, G.Word):
        if flat(b.dom):
            return 'word with a domain'
    return None


def rotate_seq(seq, z):
    seq = [(n, k + z) for n, k in seq]
    return tuple(reversed(seq)) if z % 2 else tuple(seq)
