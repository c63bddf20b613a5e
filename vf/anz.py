"""Reference meaning of ansätze: a pregroup diagram is contracted with
`sem.Interp` where the axis of a wire stands for all its qubits (or
dimensions), listed from left to right on wires with an even winding number
and from right to left on the others."""
import hashlib

import numpy as np

from vf.gen import flat
from vf.sem import Interp, TooBig  # noqa: F401


def value_of(seed, name, size=None):
    h = int.from_bytes(hashlib.blake2b(f'{seed}/{name}'.encode(),
                                       digest_size=8).digest(), 'big')
    r = np.random.default_rng(h)
    return float(r.uniform(-1, 1)) if size is None else r.normal(size=size)


class AnsatzInterp(Interp):
    """`obs`: atomic name -> dimensions of its wires, `boxes`: unrotated box
    -> array with one axis per physical wire, domain first."""

    def __init__(self, obs, boxes, conj_rotation=True):
        super().__init__(dims={k: int(np.prod(v, dtype=int))
                               for k, v in obs.items()},
                         conj_rotation=conj_rotation)
        self.obs = obs
        self.boxes = boxes

    def phys(self, seq):
        """Dimensions of the physical wires."""
        out = []
        for n, z in seq:
            out += self.obs[n][::-1] if z % 2 else self.obs[n]
        return tuple(out)

    def _order(self, seq, start=0):
        out = []
        for n, z in seq:
            k = len(self.obs[n])
            r = list(range(start, start + k))
            out += r[::-1] if z % 2 else r
            start += k
        return out

    def encode(self, arr, dom, cod):
        seq = tuple(dom) + tuple(cod)
        arr = np.asarray(arr).reshape(self.phys(seq))
        return arr.transpose(self._order(seq)).reshape(
            [self.dims[n] for n, _ in seq])

    def decode(self, arr, dom, cod):
        """The physical wires again."""
        seq = tuple(dom) + tuple(cod)
        full = [d for n, _ in seq for d in self.obs[n]]
        return arr.reshape(full).transpose(self._order(seq))

    def array(self, box, kind=''):
        k = (kind, box.name, flat(box.dom), flat(box.cod))
        if k not in self.cache:
            self.cache[k] = self.encode(self.boxes(box), flat(box.dom),
                                        flat(box.cod))
        return self.cache[k]
