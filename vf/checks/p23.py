"""P23 DisCoPy conversion round-trips."""
import numpy as np
from discopy import quantum as dq
from discopy import tensor as dt
from discopy.grammar import pregroup as dg

from lambeq.backend import grammar as G
from lambeq.backend import quantum as Q
from lambeq.backend import tensor as T
from lambeq.backend.converters import from_discopy, to_discopy
from lambeq.backend.symbol import Symbol
from vf import qsim
from vf.checks.p20 import Gen
from vf.core import Family
from vf.gen import flat, mk, rand_box, rand_diagram, rand_frame, rand_seq, \
    sentence_diagram
from vf.qprog import ROT, Prog
from vf.sem import key
from vf.tsim import Ref, close, delta

RULE = 'distinct diagrams converted'
REQUIRED = ['grammar', 'sentence', 'word', 'box', 'rotated', 'daggered',
            'cup', 'cap', 'swap', 'spider', 'quantum_pure', 'quantum_mixed',
            'controlled', 'symbolic', 'tensor', 'tensor_rotated',
            'tensor_dagger', 'types', 'refused', 'frames_refused', 'method',
            'from_grammar', 'from_quantum', 'from_tensor', 'value',
            'scaled_symbol', 'mixed_value']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


# ------------------------------------------------------------ our own views

def dflat(ty):
    return tuple((o.name, o.z) for o in ty.inside)


def dshape(d):
    return dflat(d.dom), dflat(d.cod), [
        (len(left), dflat(b.dom), dflat(b.cod)) for left, b, _ in d]


def shape(d):
    return flat(d.dom), flat(d.cod), [
        (len(flat(lay.left)), flat(lay.box.dom), flat(lay.box.cod))
        for lay in d.layers]


def data_key(x):
    if x is None or isinstance(x, Symbol):
        return x if x is None else (x.name, x.scale, x.size)
    a = np.asarray(x)
    return a.reshape(-1).tolist()


def box_view(b):
    """Structure of a tensor or quantum box, with distances and data."""
    if isinstance(b, (T.Daggered, Q.Daggered)):
        if b.box.name == 'Y':
            return box_view(b.box)      # self-adjoint, conjugated or not
        return ('dagger', box_view(b.box))
    if isinstance(b, Q.Controlled):
        return ('controlled', b.distance, box_view(b.controlled))
    if isinstance(b, (Q.Ket, Q.Bra)):
        return (type(b).__name__, b.bit)
    name = type(b).__name__
    if isinstance(b, (T.Swap, T.Cup, T.Cap, Q.Swap)):
        return (name, wires(b.dom), wires(b.cod))
    if isinstance(b, T.Spider):
        return (name, wires(b.dom), wires(b.cod), wires(b.type))
    return (name, b.name, wires(b.dom), wires(b.cod), b.z % 2,
            data_key(b.data))


def wires(t):
    if isinstance(t, Q.Ty):
        return tuple(x.label for x in t)
    return tuple(t.dim)


def view(d):
    return (wires(d.dom), wires(d.cod), [
        (wires(lay.left), box_view(lay.box), wires(lay.right))
        for lay in d.layers])


def there_and_back(c, d, v):
    if c.p(.3):
        c.ev('method')
        dd = d.to_discopy()
        e = type(d).from_discopy(dd)
    else:
        dd = to_discopy(d)
        e = from_discopy(dd)
    c.check(type(e) is type(d), 'category', type(e))
    c.check(v(e) == v(d), 'round-trip', lambda: f'{e!r}')
    if not any('Y†' in repr(b) for b in d.boxes):
        c.check(e == d, 'round-trip-equal', lambda: f'{e!r}')
    c.check(v(from_discopy(to_discopy(e))) == v(d), 'round-trip-again')
    return dd


# ------------------------------------------------------------------ grammar

def fam_grammar(c):
    if c.p(.3):
        c.ev('sentence')
        d = sentence_diagram(c, swaps=c.p(.5))
    else:
        d = rand_diagram(c, layers=c.int(0, 6), width=6,
                         names=('n', 's', 'n.r', 'a b', 'x@y'))
    k = c.int(0, 5)
    if k == 0:
        d = d.dagger()
    elif k == 1:
        d = d.rotate(c.choice([1, -1, 2]))
    c.note(repr(d))
    c.ev('grammar')
    c.sig('grammar', key(d))
    for b in d.boxes:
        kind = type(b).__name__
        c.ev({'Cup': 'cup', 'Cap': 'cap', 'Swap': 'swap', 'Word': 'word',
              'Spider': 'spider', 'Daggered': 'daggered',
              'Box': 'box'}[kind])
        if kind in ('Box', 'Word', 'Daggered') and b.z:
            c.ev('rotated')
    before = key(d)
    dd = there_and_back(c, d, key)
    c.check(key(d) == before, 'input-altered')
    c.check(isinstance(dd, dg.Diagram), 'discopy-category', type(dd))
    c.eq(dshape(dd), shape(d), 'discopy-shape')
    for (_, b, _), a in zip(dd, d.boxes):
        inner = a
        if isinstance(a, G.Daggered):
            inner = a.dagger()
        plain = not isinstance(inner, (G.Cup, G.Cap, G.Swap, G.Spider))
        if plain:
            c.eq((b.name, b.is_dagger, isinstance(b, dg.Word)),
                 (inner.name, isinstance(a, G.Daggered),
                  isinstance(inner, G.Word)), 'discopy-box')


def fam_types(c):
    """Identities carry types over and back."""
    c.ev('types')
    seq = rand_seq(c, 0, 6, names=('n', 's', 'p', 'n.r', 'a b', '@', '()'),
                   zmax=4)
    t = mk(seq)
    c.note(repr(t))
    c.sig('type', flat(t))
    d = to_discopy(G.Id(t))
    c.eq((dflat(d.dom), dflat(d.cod), len(d)), (flat(t), flat(t), 0),
         'type')
    c.eq(flat(from_discopy(d).dom), flat(t), 'type-back')
    dims = [c.int(1, 6) for _ in range(c.int(0, 4))]
    d = to_discopy(T.Id(T.Dim(*dims)))
    want = tuple(x for x in dims if x > 1)
    c.eq(tuple(d.dom.inside), want, 'dimensions')
    c.eq(tuple(from_discopy(d).dom.dim), want, 'dimensions-back')
    q = [c.choice(['qubit', 'bit']) for _ in range(c.int(0, 4))]
    t = Q.Ty()
    for x in q:
        t = t @ getattr(Q, x)
    d = to_discopy(Q.Id(t))
    c.eq([str(x) for x in d.dom], q, 'quantum-type')
    c.eq([x.label for x in from_discopy(d).dom], q, 'quantum-type-back')


def fam_from_grammar(c):
    """Diagrams made with DisCoPy's own constructors."""
    c.ev('from_grammar')

    def dty(seq):
        return dg.Ty(*(dg.Ob(n, z) for n, z in seq))
    cur = rand_seq(c, 0, 3)
    dom = tuple(cur)
    d = dg.Id(dty(cur))
    layers = []
    for _ in range(c.int(1, 5)):
        kind = c.choice(['word', 'box', 'box', 'cup', 'cap', 'swap',
                         'spider'])
        pos, k = c.int(0, len(cur)), 0
        if kind == 'word':
            out = rand_seq(c, 1, 3)
            name = c.choice(['Alice', 'a b', 'runs'])
            b = dg.Word(name, dty(out))
            a = G.Word(name, mk(out))
        elif kind == 'box':
            pos = c.int(0, len(cur))
            k = c.int(0, min(2, len(cur) - pos))
            out = rand_seq(c, 0, 2)
            b = dg.Box('f', dty(cur[pos:pos + k]), dty(out))
            a = G.Box('f', mk(cur[pos:pos + k]), mk(out))
            if c.p(.4):
                b = dg.Box('f', dty(out), dty(cur[pos:pos + k])).dagger()
                a = G.Box('f', mk(out), mk(cur[pos:pos + k])).dagger()
        elif kind == 'cup':
            cand = [j for j in range(len(cur) - 1)
                    if cur[j][0] == cur[j + 1][0]
                    and abs(cur[j][1] - cur[j + 1][1]) == 1]
            if not cand:
                continue
            pos, k, out = c.choice(cand), 2, []
            x, y = cur[pos], cur[pos + 1]
            b = dg.Cup(dty([x]), dty([y]))
            a = G.Cup(mk([x]), mk([y]), is_reversed=x[1] > y[1])
        elif kind == 'cap':
            (n, z), = rand_seq(c, 1, 1)
            z2 = z + c.choice([-1, 1])
            out = [(n, z), (n, z2)]
            b = dg.Cap(dty([(n, z)]), dty([(n, z2)]))
            a = G.Cap(mk([(n, z)]), mk([(n, z2)]), is_reversed=z2 > z)
        elif kind == 'swap':
            if len(cur) < 2:
                continue
            pos, k = c.int(0, len(cur) - 2), 2
            x, y = cur[pos], cur[pos + 1]
            out = [y, x]
            b = dg.Swap(dty([x]), dty([y]))
            a = G.Swap(mk([x]), mk([y]))
        else:
            if not cur:
                continue
            pos, k = c.int(0, len(cur) - 1), 1
            m = c.int(0, 3)
            out = [cur[pos]] * m
            b = dg.Spider(1, m, dty([cur[pos]]))
            a = G.Spider(mk([cur[pos]]), 1, m)
        layers.append(G.Layer(left=mk(cur[:pos]), box=a,
                              right=mk(cur[pos + k:])))
        d = d >> (dg.Id(dty(cur[:pos])) @ b @ dg.Id(dty(cur[pos + k:])))
        cur[pos:pos + k] = out
    want = G.Diagram(dom=mk(dom), cod=mk(cur), layers=layers)
    c.note(repr(want))
    got = from_discopy(d)
    c.sig('from', key(want))
    c.check(key(got) == key(want), 'from-discopy', lambda: repr(got))
    c.check(to_discopy(got) == d, 'and-back', lambda: f'{d}')


# ------------------------------------------------------------------ tensor

def fam_tensor(c):
    g = Gen(c, [c.choice([2, 3]) for _ in range(c.int(0, 2))])
    for _ in range(c.int(0, 5)):
        getattr(g, c.choice(['box', 'box', 'box', 'swap', 'cup', 'cap',
                             'spider']))()
    d = g.diag
    c.note(f'{g.ops} {d!r}')
    c.ev('tensor')
    c.sig('tensor', repr(g.ops), tuple(g.ref.ins))
    for op in g.ops:
        if 'dagger' in op[0]:
            c.ev('tensor_dagger')
        if 'rotated' in op[0]:
            c.ev('tensor_rotated')
    dd = there_and_back(c, d, view)
    c.check(isinstance(dd, dt.Diagram), 'discopy-category', type(dd))
    c.eq((tuple(dd.dom.inside), tuple(dd.cod.inside)),
         (tuple(d.dom.dim), tuple(d.cod.dim)), 'discopy-boundary')
    back = np.asarray(from_discopy(dd).eval(dtype=np.complex128))
    c.check(close(back, g.ref.arr, 1e-7), 'value-back')
    if not dd.boxes or any('rotated' in op[0] for op in g.ops):
        return      # DisCoPy evaluates rotated boxes as if they were not
    c.ev('value')
    got = np.asarray(dd.eval(dtype=complex).array)
    c.check(close(got.reshape(g.ref.arr.shape), g.ref.arr, 1e-7),
            'discopy-value', lambda: f'{got} != {g.ref.arr}')


def fam_from_tensor(c):
    c.ev('from_tensor')
    w = [c.choice([2, 3]) for _ in range(c.int(0, 2))]
    ref = Ref(w)
    d = dt.Id(dt.Dim(*w))
    for _ in range(c.int(1, 4)):
        w = ref.wires
        kind = c.choice(['box', 'box', 'swap', 'spider'])
        if kind == 'box':
            k = c.int(0, min(2, len(w)))
            pos = c.int(0, len(w) - k)
            out = tuple(c.choice([2, 3]) for _ in range(c.int(0, 2)))
            if ref.arr.size * int(np.prod(out)) > 2000:
                continue
            data = c.np.normal(size=tuple(w[pos:pos + k]) + out) + 0j
            if c.p(.5):
                data = data + 1j * c.np.normal(size=data.shape)
            b = dt.Box('f', dt.Dim(*w[pos:pos + k]), dt.Dim(*out), data)
            if c.p(.3):
                swapped = np.moveaxis(
                    data, list(range(k)), list(range(len(out), data.ndim)))
                b = dt.Box('f', dt.Dim(*out), dt.Dim(*w[pos:pos + k]),
                           swapped.conj()).dagger()
            arr = data
        elif kind == 'swap':
            if len(w) < 2:
                continue
            pos, k = c.int(0, len(w) - 2), 2
            b = dt.Swap(dt.Dim(w[pos]), dt.Dim(w[pos + 1]))
            arr = np.einsum('ad,bc->abcd', np.eye(w[pos]),
                            np.eye(w[pos + 1]))
        else:
            if not w:
                continue
            pos, k = c.int(0, len(w) - 1), 1
            m = c.int(0, 3)
            b = dt.Spider(1, m, dt.Dim(w[pos]))
            arr = delta(w[pos], 1 + m)
        d = d >> (dt.Id(dt.Dim(*w[:pos])) @ b @ dt.Id(dt.Dim(*w[pos + k:])))
        ref.apply(pos, k, arr)
    c.note(str(d))
    c.sig('from_tensor', str(d), ref.ins)
    got = from_discopy(d)
    c.check(isinstance(got, T.Diagram) and not isinstance(got, Q.Diagram),
            'category')
    c.eq((tuple(got.dom.dim), tuple(got.cod.dim)),
         (tuple(ref.ins), tuple(ref.wires)), 'from-boundary')
    arr = np.asarray(got.eval(dtype=np.complex128))
    c.check(close(arr, ref.arr, 1e-7), 'from-value',
            lambda: f'{arr} != {ref.arr}')


# ----------------------------------------------------------------- quantum

class Dp(Prog):
    symbols = False

    def single(self):
        c = self.c
        if self.symbols and c.p(.6):
            n = c.choice(sorted(ROT))
            s = Symbol(c.choice(['a', 'b__n', 'γ']))
            if c.p(.5):
                c.ev('scaled_symbol')
                s = s * c.choice([2, -1, .5, .25])
            return ROT[n](s), np.eye(2), n
        box, mat, n = super().single()
        while n == 'custom':
            box, mat, n = super().single()
        return box, mat, n

    def gate2(self):
        return Q.Swap(Q.qubit, Q.qubit), qsim.FIXED['SWAP'], 'SWAP'


KINDS = ['gate'] * 5 + ['controlled'] * 3 + ['gate2', 'ket', 'bra', 'scalar',
                                             'frobenius']
MIXING = ['measure', 'measure', 'encode', 'discard']


def circuit(c, mixed, symbolic=False):
    g = Dp(c, 'q' * c.int(0, 3))
    g.symbols = symbolic
    for _ in range(c.int(0, 7)):
        g.step(KINDS + MIXING * mixed)
    return g


def plain(b):
    """DisCoPy ignores the conjugation of rotated gates, and the dagger of
    gates that are controlled, when it evaluates them."""
    if isinstance(b, Q.Daggered):
        b = b.box
    elif isinstance(b, Q.Controlled):
        b = b.controlled
        return plain(b) and not isinstance(b, Q.Daggered)
    return b.z % 2 == 0


def expressible(d):
    """Boxes DisCoPy has a counterpart for."""
    def ok(b):
        if isinstance(b, Q.Daggered):
            return ok(b.box)
        if isinstance(b, Q.Controlled):
            return ok(b.controlled)
        if isinstance(b, Q.Swap):
            return (b.left, b.right) == (Q.qubit, Q.qubit)
        if isinstance(b, (Q.Ket, Q.Bra, Q.Scalar, Q.Sqrt, Q.Discard,
                          Q.Measure, Q.Encode, Q.Rotation)):
            return True
        return b.name in ('H', 'S', 'T', 'X', 'Y', 'Z')
    return all(ok(b) for b in d.boxes)


def fam_quantum(c):
    mixed, symbolic = c.p(.4), c.p(.2)
    g = circuit(c, mixed, symbolic)
    d = g.diag
    g.note()
    c.sig('quantum', tuple(g.ref.ins), repr(g.ops))
    if not expressible(d):
        c.ev('refused')
        c.raises(Exception, lambda: to_discopy(d), mechanism='inexpressible')
        return
    if symbolic and d.free_symbols:
        c.ev('symbolic')
    if any(isinstance(b, Q.Controlled) for b in d.boxes):
        c.ev('controlled')
    c.ev('quantum_mixed' if g.ref.pure is None else 'quantum_pure')
    dd = there_and_back(c, d, view)
    c.check(isinstance(dd, dq.Circuit), 'discopy-category', type(dd))
    c.eq(([str(x) for x in dd.dom], [str(x) for x in dd.cod]),
         ([x.label for x in d.dom], [x.label for x in d.cod]),
         'discopy-boundary')
    if symbolic or not d.boxes or not all(plain(b) for b in d.boxes):
        return
    if g.ref.pure is not None:
        c.ev('value')
        got = np.asarray(dd.eval(mixed=False).array)
        want = g.ref.pure.arr
    elif not g.ref.ins and 'q' not in g.types:
        c.ev('mixed_value')
        got = np.asarray(dd.eval(mixed=True).array)
        want = g.ref.distribution()
    else:
        return
    c.check(close(got.reshape(want.shape), want, 1e-6), 'discopy-value',
            lambda: f'{got} != {want}')


def fam_from_quantum(c):
    """Circuits made with DisCoPy's own constructors."""
    c.ev('from_quantum')
    n = c.int(0, 3)
    ref = qsim.QRef('q' * n)
    d = dq.Id(dq.qubit ** n)
    ops = []
    for _ in range(c.int(1, 7)):
        w = len(ref.types)
        kind = c.choice(['one', 'one', 'rot', 'rot', 'two', 'ctrl', 'ket',
                         'bra', 'scalar', 'sqrt'])
        if kind == 'one' and w:
            name = c.choice(['H', 'S', 'T', 'X', 'Y', 'Z'])
            b, m = getattr(dq, name), qsim.FIXED[name]
            if c.p(.3):
                b, m = b.dagger(), m.conj().T
                name += '†'
        elif kind == 'rot' and w:
            name = c.choice(['Rx', 'Ry', 'Rz'])
            p = c.rng.uniform(-2, 2)
            b, m = getattr(dq, name)(p), qsim.rotation(name, p)
            if c.p(.3):
                b, m = b.dagger(), m.conj().T
                name += '†'
        elif kind == 'two' and w > 1:
            name = c.choice(['CX', 'CZ', 'SWAP'])
            b = getattr(dq, name)
            m = (qsim.FIXED['SWAP'] if name == 'SWAP' else
                 qsim.controlled(2, 0, [1], qsim.FIXED[name[1]]))
        elif kind == 'ctrl' and w > 1:
            dist = c.choice([x for x in (-2, -1, 1, 2) if abs(x) < w])
            p = c.rng.uniform(-1, 1)
            axis = c.choice(['Rx', 'Rz', 'X', 'Z', 'Y'])
            inner = (getattr(dq, axis)(p) if axis[0] == 'R'
                     else getattr(dq, axis))
            u = (qsim.rotation(axis, p) if axis[0] == 'R'
                 else qsim.FIXED[axis])
            name = f'C{dist}{axis}'
            b = dq.Controlled(inner, distance=dist)
            k = abs(dist) + 1
            m = (qsim.controlled(k, 0, [k - 1], u) if dist > 0
                 else qsim.controlled(k, k - 1, [0], u))
        elif kind == 'ket' and w < 4:
            bits = [c.int(0, 1) for _ in range(c.int(0, min(2, 4 - w)))]
            pos = c.int(0, w)
            d = d >> dq.Id(pos) @ dq.Ket(*bits) @ dq.Id(w - pos)
            m = np.zeros((2,) * len(bits), complex)
            m[tuple(bits)] = 1
            ref.quantum(pos, 0, m)
            ops.append(('ket', pos, bits))
            continue
        elif kind == 'bra' and w:
            bits = [c.int(0, 1) for _ in range(c.int(0, min(2, w)))]
            pos = c.int(0, w - len(bits))
            d = d >> dq.Id(pos) @ dq.Bra(*bits) @ dq.Id(w - pos - len(bits))
            m = np.zeros((2,) * len(bits), complex)
            m[tuple(bits)] = 1
            ref.quantum(pos, len(bits), m)
            ops.append(('bra', pos, bits))
            continue
        elif kind == 'scalar':
            s = complex(c.rng.uniform(-1, 1), c.rng.uniform(-1, 1))
            d = d @ dq.gates.Scalar(s)
            ref.scale(s)
            ops.append(('scalar', s))
            continue
        elif kind == 'sqrt':
            s = c.choice([2, 3, .5])
            d = d @ dq.gates.Sqrt(s)
            ref.scale(np.sqrt(s))
            ops.append(('sqrt', s))
            continue
        else:
            continue
        k = int(np.log2(m.shape[0]))
        pos = c.int(0, w - k)
        d = d >> dq.Id(pos) @ b @ dq.Id(w - pos - k)
        ref.gate(pos, m)
        ops.append((name, pos))
    end = c.choice(['', '', 'measure', 'discard'])
    for _ in range(len(ref.types) if end else 0):
        i = c.int(0, len(ref.types) - 1)
        if ref.types[i] != 'q':
            continue
        b = dq.Measure() if end == 'measure' else dq.Discard()
        left = d.cod[:i]
        d = d >> dq.Id(left) @ b @ dq.Id(d.cod[i + 1:])
        (ref.measure if end == 'measure' else ref.discard)(i)
        ops.append((end, i))
    c.note(f'{n} {ops}')
    c.sig('from_quantum', n, repr(ops))
    got = from_discopy(d)
    c.check(isinstance(got, Q.Diagram), 'category')
    if ref.pure is not None:
        arr, want = np.asarray(got.eval()), ref.pure.arr
    else:
        arr, want = np.asarray(got.eval(mixed=True)), ref.mixed_array()
    c.check(arr.shape == want.shape, 'from-shape')
    c.check(close(arr, want, 1e-6), 'from-value',
            lambda: f'{arr} != {want}')


def fam_refuse(c):
    kind = c.choice(['frame', 'frame', 'bits', 'custom', 'sized',
                     'nondestructive', 'state'])
    c.ev('refused')
    c.sig(kind)
    if kind == 'frame':
        c.ev('frames_refused')
        f = rand_frame(c, 1)
        d = (rand_box(c, cod=f.dom, hi=2).to_diagram() >> f
             if c.p(.5) else f.to_diagram())
        c.note(repr(d))
        c.raises(Exception, lambda: to_discopy(d), mechanism=kind)
        return
    c.note(kind)
    if kind in ('bits', 'custom', 'state'):
        d = {'bits': Q.Bit(0).to_diagram(), 'custom': Q.Box(
            'odd', Q.qubit, Q.qubit, c.np.normal(size=(2, 2))).to_diagram(),
            'state': Q.MixedState().to_diagram()}[kind]
        c.raises(Exception, lambda: to_discopy(d), mechanism=kind)
    elif kind == 'sized':
        b = c.choice([dq.Discard(dq.qubit ** 2), dq.Measure(2), dq.Encode(2),
                      dq.Bits(0, 1), dq.MixedState()])
        try:
            got = from_discopy(dq.Id() >> b if not b.dom else
                               dq.Id(b.dom) >> b)
        except Exception:
            return
        c.eq(([x.label for x in got.dom], [x.label for x in got.cod]),
             ([str(x) for x in b.dom], [str(x) for x in b.cod]), 'sized')
    else:
        d = dq.Id(1) >> dq.Measure(destructive=False)
        c.raises(Exception, lambda: from_discopy(d), mechanism=kind)


FAMILIES = [
    Family('grammar', fam_grammar, 300),
    Family('types', fam_types, 80),
    Family('from_grammar', fam_from_grammar, 150),
    Family('tensor', fam_tensor, 200),
    Family('from_tensor', fam_from_tensor, 100),
    Family('quantum', fam_quantum, 300),
    Family('from_quantum', fam_from_quantum, 200),
    Family('refuse', fam_refuse, 30),
]
