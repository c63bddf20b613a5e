"""P20 Evaluating a tensor diagram is contracting it."""
import numpy as np
import tensornetwork as tn
import torch

from lambeq.backend import tensor as T
from lambeq.backend.numerical_backend import backend
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Cap, Cup, Diagram, Dim, Id, Spider, Swap

from vf.core import Family
from vf.tsim import Ref, adjoint, close, conj_reversed, delta

RULE = 'distinct (wire dimensions, operation sequence) combinations'
REQUIRED = ['box', 'dagger', 'rotated', 'rotated_dagger', 'swap', 'cup',
            'cap', 'compound_cup', 'compound_cap', 'spider', 'wide_spider',
            'scalar_spider', 'scalar', 'dim_one', 'big_dim', 'empty',
            'loop', 'trace', 'disconnected', 'complex', 'flat_data',
            'compound_swap', 'permutation', 'compose', 'tensored', 'adjoint',
            'mirror', 'again', 'jax', 'pytorch', 'symbolic', 'greedy',
            'optimal', 'branch', 'layers', 'slice', 'integer', 'set_anew']
LIMIT = 1500


def setup():
    import jax
    jax.config.update('jax_enable_x64', True)


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')
    torch.set_num_threads(1)


class Gen:
    """Builds a diagram and its meaning side by side."""

    def __init__(self, c, dims, real=False, names='f'):
        self.c, self.real = c, real
        self.diag = Id(Dim(*dims))
        self.ref = Ref(d for d in dims if d > 1)
        self.ops = []
        self.names = names
        self.count = 0

    @property
    def wires(self):
        return self.ref.wires

    def size(self):
        return int(self.ref.arr.size)

    def put(self, box, pos, k, arr, op):
        if self.c.p(.5):
            w = self.wires
            self.diag = self.diag >> (Id(Dim(*w[:pos])) @ box
                                      @ Id(Dim(*w[pos + k:])))
        else:
            self.diag = self.diag.then_at(box, pos)
        self.ref.apply(pos, k, arr)
        self.ops.append((op, pos, k))

    def numbers(self, shape):
        c = self.c
        if self.real and c.p(.15):
            c.ev('integer')
            return c.np.integers(-3, 4, size=shape)
        a = c.np.normal(size=shape)
        if not self.real and c.p(.6):
            c.ev('complex')
            a = a + 1j * c.np.normal(size=shape)
        return a

    def box(self):
        c = self.c
        w = self.wires
        k = c.int(0, min(3, len(w)))
        pos = c.int(0, len(w) - k)
        room = LIMIT * int(np.prod(w[pos:pos + k])) // max(1, self.size())
        out = []
        for _ in range(c.int(0, 3)):
            d = c.choice([1, 2, 2, 2, 3, 3, 4, 5])
            if int(np.prod(out + [d])) <= room:
                out.append(d)
        if 1 in out:
            c.ev('dim_one')
        din, dout = list(w[pos:pos + k]), [d for d in out if d > 1]
        if not din and not dout:
            c.ev('scalar')
        self.count += 1
        name = f'{self.names}{self.count}' if c.p(.7) else self.names
        kind = c.choice(['box', 'box', 'dagger', 'rotated', 'rotated_dagger'])
        a, b = (dout, din) if 'dagger' in kind else (din, dout)
        ra, rb = (a[::-1], b[::-1]) if 'rotated' in kind else (a, b)
        data = self.numbers(tuple(ra + rb))
        pa = ra + [1] * c.int(0, 1) if c.p(.1) else ra
        given = data
        if c.p(.3):
            c.ev('flat_data')
            given = data.reshape(-1)
        box = Box(name, Dim(*pa), Dim(*rb), given)
        arr = data
        if 'rotated' in kind:
            z = c.choice([-1, 1, 1, 3])
            box = box.rotate(z)
            arr = conj_reversed(arr, len(a))
        elif c.p(.1):
            box = box.rotate(c.choice([2, -2]))
        if 'dagger' in kind:
            box = box.dagger()
            arr = adjoint(arr, len(a))
            if c.p(.1):
                box = box.dagger().dagger()
        c.ev(kind)
        self.put(box, pos, k, arr, kind)

    def swap(self):
        c, w = self.c, self.wires
        if len(w) < 2:
            return
        if c.p(.25):
            perm = list(range(len(w)))
            c.rng.shuffle(perm)
            self.diag = self.diag >> Diagram.permutation(Dim(*w), perm)
            m = len(self.ref.ins)
            self.ref.arr = self.ref.arr.transpose(
                list(range(m)) + [m + p for p in perm])
            c.ev('permutation')
            self.ops.append(('perm', tuple(perm)))
            return
        pos = c.int(0, len(w) - 2)
        a = c.int(1, min(2, len(w) - 1 - pos))
        b = c.int(1, min(2, len(w) - pos - a))
        left, right = w[pos:pos + a], w[pos + a:pos + a + b]
        c.ev('swap' if a == b == 1 else 'compound_swap')
        s = (Swap(Dim(*left), Dim(*right)) if c.p(.5)
             else Diagram.swap(Dim(*left), Dim(*right)))
        if c.p(.2):
            s = (Diagram.swap(Dim(*right), Dim(*left))).dagger()
        self.diag = self.diag.then_at(s, pos)
        m = len(self.ref.ins) + pos
        order = list(range(self.ref.arr.ndim))
        order[m:m + a + b] = (list(range(m + a, m + a + b))
                              + list(range(m, m + a)))
        self.ref.arr = self.ref.arr.transpose(order)
        self.ops.append(('swap', pos, a, b))

    def cup(self):
        c, w = self.c, self.wires
        spots = [(i, n) for n in (1, 2) for i in range(len(w) - 2 * n + 1)
                 if w[i:i + n] == w[i + n:i + 2 * n][::-1]]
        if not spots:
            return
        pos, n = c.choice(spots)
        left = w[pos:pos + n]
        box = (Cup(Dim(*left), Dim(*left[::-1])) if c.p(.5) else
               Diagram.cups(Dim(*left), Dim(*left[::-1])))
        if c.p(.2):
            box = Diagram.caps(Dim(*left), Dim(*left[::-1])).dagger()
        c.ev('cup' if n == 1 else 'compound_cup')
        if max(left) > 2:
            c.ev('big_dim')
        size = int(np.prod(left))
        arr = np.eye(size).reshape(left * 2)
        arr = arr.transpose(list(range(n)) + list(range(n, 2 * n))[::-1])
        self.put(box, pos, 2 * n, arr, f'cup{n}')

    def cap(self):
        c = self.c
        n = c.choice([1, 1, 2])
        left = tuple(c.choice([2, 2, 3, 4]) for _ in range(n))
        if self.size() * int(np.prod(left)) ** 2 > LIMIT:
            return
        pos = c.int(0, len(self.wires))
        box = (Cap(Dim(*left), Dim(*left[::-1])) if c.p(.5) else
               Diagram.caps(Dim(*left), Dim(*left[::-1])))
        if c.p(.3):
            box = Diagram.cups(Dim(*left), Dim(*left[::-1])).dagger()
        c.ev('cap' if n == 1 else 'compound_cap')
        size = int(np.prod(left))
        arr = np.eye(size).reshape(left * 2)
        arr = arr.transpose(list(range(n)) + list(range(n, 2 * n))[::-1])
        self.put(box, pos, 0, arr, f'cap{n}')

    def spider(self):
        c, w = self.c, self.wires
        runs = [(i, k) for i in range(len(w)) for k in range(1, 5)
                if i + k <= len(w) and len(set(w[i:i + k])) == 1]
        if runs and c.p(.8):
            pos, k = c.choice(runs)
            d = w[pos]
        else:
            pos, k, d = c.int(0, len(w)), 0, c.choice([2, 3])
        out = c.int(0, 4)
        if self.size() // d ** k * d ** out > LIMIT:
            out = c.int(0, min(k, 1))
        if k + out == 0:
            c.ev('scalar_spider')
            return      # the closed spider has no agreed value
        if max(k, out) > 2:
            c.ev('wide_spider')
        c.ev('spider')
        box = Spider(Dim(d), k, out)
        if c.p(.3):
            box = Spider(Dim(d), out, k).dagger()
        if c.p(.1):
            box = box.rotate(c.int(-1, 2))
        self.put(box, pos, k, delta(d, k + out), f'spider{k},{out}')

    def step(self):
        getattr(self, self.c.choice(
            ['box'] * 5 + ['swap', 'swap', 'cup', 'cup', 'cap', 'spider',
                           'spider']))()


def rand_dims(c, most=3, cap=40):
    out = []
    for _ in range(c.int(0, most)):
        d = c.choice([1, 2, 2, 3, 3, 4, 5])
        if int(np.prod(out + [d])) <= cap:
            out.append(d)
    return out


def rand_diagram(c, steps=None, real=False, dims=None, names='f'):
    g = Gen(c, rand_dims(c) if dims is None else dims, real, names)
    for _ in range(c.int(0, 7) if steps is None else steps):
        g.step()
    return g


def note(c, g):
    c.note(ins=g.ref.ins, ops=g.ops)
    c.sig(g.ref.ins, tuple(g.ops))
    if not g.diag.boxes:
        c.ev('empty' if not g.wires else 'identity')
    c.sample(f'{g.ref.ins} -> {tuple(g.wires)}: {g.ops}')


CONTRACTORS = {'greedy': tn.contractors.greedy,
               'branch': tn.contractors.branch,
               'optimal': tn.contractors.optimal}


def value(c, d, mech='value', want=None, tol=None, **kw):
    # single precision is the documented default
    if 'dtype' not in kw and c.p(.5):
        kw['dtype'] = np.complex128 if np.iscomplexobj(want) else np.float64
    if tol is None:
        tol = 1e-9 if 'dtype' in kw else 3e-5
    got = d.eval(**kw)
    c.check(tuple(np.shape(got)) == np.shape(want), 'shape',
            lambda: f'{np.shape(got)} != {np.shape(want)}')
    c.check(close(got, want, tol), mech, lambda: f'{got} != {want}')
    return got


def fam_value(c):
    g = rand_diagram(c)
    note(c, g)
    d = g.diag
    c.check(tuple(d.dom.dim if d.dom else ()) == g.ref.ins
            and tuple(d.cod.dim if d.cod else ()) == tuple(g.wires),
            'boundary')
    value(c, d, want=g.ref.arr)
    if c.p(.3):
        value(c, d, 'evaluated-again', g.ref.arr, dtype=np.float64)
        c.ev('again')
    if c.p(.4) and len(d.boxes) < 9:
        k = c.choice(sorted(CONTRACTORS))
        c.ev(k)
        value(c, d, f'contractor-{k}', g.ref.arr,
              contractor=CONTRACTORS[k])
    own = [b for b in d.boxes if type(b) in (Box, T.Daggered)
           and isinstance(b.data, np.ndarray)]
    if own and c.p(.3):
        # the entries of a box can be set anew
        c.ev('set_anew')
        b, k = c.choice(own), c.choice([-2, 3])
        value(c, d, 'evaluated-again', g.ref.arr, dtype=np.complex128)
        before = b.data
        b.data = k * np.asarray(b.data)
        value(c, d, 'data-set-anew', k * g.ref.arr, dtype=np.complex128)
        b.data = before
        value(c, d, 'data-set-back', g.ref.arr, dtype=np.complex128)
    if c.p(.3) and d.layers:
        c.ev('layers')
        e = Diagram(d.dom, d.cod, list(d.layers))
        value(c, e, 'rebuilt', g.ref.arr)
    if c.p(.2) and len(d.layers) > 1:
        k = c.int(1, len(d.layers) - 1)
        c.ev('slice')
        a, b = d[:k].eval(dtype=np.complex128), d[k:].eval(dtype=complex)
        n = len(d[:k].cod)
        value(c, d, 'sliced', np.tensordot(a, b, n))


def fam_closed(c):
    """Networks with loops, traces and disconnected parts, down to scalars."""
    g = Gen(c, [])
    for _ in range(c.int(1, 3)):
        g.cap() if c.p(.5) else g.box()
    for _ in range(c.int(0, 5)):
        g.step()
    if c.p(.7):
        c.ev('loop')
        # close every wire that has an equal neighbour
        for _ in range(8):
            before = len(g.ops)
            g.cup()
            if len(g.ops) == before:
                if len(g.wires) < 2:
                    break
                g.swap()
    if len(g.wires) == 0:
        c.ev('scalar')
    note(c, g)
    value(c, g.diag, want=g.ref.arr)
    if len(g.diag.boxes) < 9:
        k = c.choice(sorted(CONTRACTORS))
        c.ev(k)
        value(c, g.diag, f'contractor-{k}', g.ref.arr,
              contractor=CONTRACTORS[k])


def fam_trace(c):
    """Partial traces of a box: both ends of a wire on one node."""
    dims = [c.choice([2, 3]) for _ in range(c.int(1, 3))]
    a = c.np.normal(size=tuple(dims * 2)) + 1j * c.np.normal(
        size=tuple(dims * 2))
    box = Box('f', Dim(*dims), Dim(*dims), a)
    k = len(dims)
    c.ev('trace')
    c.note(dims=dims)
    c.sig(tuple(dims), 'trace')
    last = Dim(dims[-1])
    rest = Dim(*dims[:-1])
    d = (Id(rest) @ Diagram.caps(last, last) >> box @ Id(last)
         >> Id(rest) @ Diagram.cups(last, last))
    want = np.trace(a, axis1=k - 1, axis2=2 * k - 1)
    value(c, d, 'trace', want)
    if c.p(.4):
        ty = Dim(*dims)
        e = (Diagram.caps(ty, ty[::-1]) >> box @ Id(ty[::-1])
             >> Diagram.cups(ty, ty[::-1]))
        n = int(np.prod(dims))
        value(c, e, 'full-trace', np.trace(a.reshape(n, n)))
        c.ev('disconnected')
        value(c, e @ e, 'disconnected', np.trace(a.reshape(n, n)) ** 2)


def fam_algebra(c):
    """Composition, tensor, adjoint and reflection of evaluated diagrams."""
    f = rand_diagram(c, c.int(0, 4), names='f')
    op = c.choice(['compose', 'tensored', 'adjoint', 'mirror'])
    c.ev(op)
    m = len(f.ref.ins)
    if op == 'compose':
        h = rand_diagram(c, c.int(0, 4), dims=list(f.wires), names='g')
        note(c, f)
        note(c, h)
        want = np.tensordot(f.ref.arr, h.ref.arr, len(f.wires))
        value(c, f.diag >> h.diag, 'compose', want)
        if c.p(.3):
            value(c, f.diag.then(h.diag), 'compose', want)
    elif op == 'tensored':
        h = rand_diagram(c, c.int(0, 3), dims=rand_dims(c, 2, 8), names='g')
        note(c, f)
        note(c, h)
        if f.size() * h.size() > 20000:
            c.skip('too big')
        a, b = f.ref.arr, h.ref.arr
        k = len(h.ref.ins)
        want = np.multiply.outer(a, b)
        want = want.transpose(
            list(range(m)) + list(range(a.ndim, a.ndim + k))
            + list(range(m, a.ndim)) + list(range(a.ndim + k, want.ndim)))
        value(c, f.diag @ h.diag, 'tensor', want)
    elif op == 'adjoint':
        note(c, f)
        value(c, f.diag.dagger(), 'adjoint', adjoint(f.ref.arr, m))
        value(c, f.diag.dagger().dagger(), 'adjoint-twice', f.ref.arr)
    else:
        note(c, f)
        z = c.choice([1, -1, 1, 2, 3])
        d = f.diag.rotate(z)
        value(c, d, 'mirror',
              conj_reversed(f.ref.arr, m) if z % 2 else f.ref.arr)
        value(c, f.diag, 'original-changed', f.ref.arr)


def fam_backend(c):
    """The same diagram in every numerical backend."""
    name = c.choice(['jax', 'pytorch'])
    c.ev(name)
    f32 = name == 'pytorch' and c.p(.5)
    seed = c.rng.getrandbits(32)

    def build(convert):
        c.rng.seed(seed)
        c.np = np.random.default_rng(seed)
        g = rand_diagram(c, c.int(1, 5), real=True)
        d = g.diag
        layers = []
        for lay in d.layers:
            left, box, right = lay.unpack()
            layers.append(T.Layer(left, convert(box), right))
        return g, Diagram(d.dom, d.cod, layers)

    def data(box):
        if isinstance(box, T.Daggered):
            return data(box.box).dagger()
        if isinstance(box, (Cup, Cap, Swap, Spider)):
            return box
        arr = np.asarray(box.data, dtype=float)
        if name == 'pytorch':
            arr = torch.as_tensor(arr, dtype=torch.float32 if f32
                                  else torch.float64)
        else:
            import jax.numpy as jnp
            arr = jnp.array(arr)
        return Box(box.name, box.dom, box.cod, arr, z=box.z)

    g, d = build(data)
    note(c, g)
    with backend(name), tn.DefaultBackend(name):
        got = (d.eval() if f32 else d.eval(dtype=np.float64))
    c.check((isinstance(got, torch.Tensor) if name == 'pytorch'
             else 'jax' in type(got).__module__), 'result-kind',
            f'{type(got)}')
    got = got.numpy() if name == 'pytorch' else np.asarray(got)
    c.check(got.shape == g.ref.arr.shape, 'shape')
    c.check(close(got, g.ref.arr, 1e-4 if f32 else 1e-9), f'value-{name}',
            lambda: f'{got} != {g.ref.arr}')


def fam_symbolic(c):
    """Diagrams with symbolic boxes, evaluated after substitution."""
    g = rand_diagram(c, c.int(1, 5))
    note(c, g)
    c.ev('symbolic')
    syms, vals, layers = [], [], []

    def sym(box):
        if isinstance(box, T.Daggered):
            return sym(box.box).dagger()
        if isinstance(box, (Cup, Cap, Swap, Spider)):
            return box
        s = Symbol(f's{len(syms)}', box.dom.product, box.cod.product)
        syms.append(s)
        vals.append(box.data)
        return Box(box.name, box.dom, box.cod, s, z=box.z)
    d = g.diag
    for lay in d.layers:
        left, box, right = lay.unpack()
        layers.append(T.Layer(left, sym(box), right))
    e = Diagram(d.dom, d.cod, layers)
    c.eq(set(e.free_symbols), set(syms), 'free-symbols')
    order = list(range(len(syms)))
    c.rng.shuffle(order)
    f = e.lambdify(*[syms[i] for i in order])
    value(c, f(*[vals[i] for i in order]), 'substituted', g.ref.arr)
    c.eq(set(e.free_symbols), set(syms), 'original-substituted')


FAMILIES = [
    Family('value', fam_value, 700),
    Family('closed', fam_closed, 300),
    Family('trace', fam_trace, 60),
    Family('algebra', fam_algebra, 400),
    Family('backend', fam_backend, 160),
    Family('symbolic', fam_symbolic, 200),
]
