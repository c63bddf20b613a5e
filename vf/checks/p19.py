"""P19 Evaluating a circuit is quantum mechanics."""
import numpy as np

from lambeq.backend import quantum as Q
from lambeq.backend.numerical_backend import backend
from lambeq.backend.quantum import (Box, Controlled, Diagram, Id, bit,
                                    qubit, to_circuital)
from vf import qsim
from vf.core import Family
from vf.qprog import ROT, Prog, ty
from vf.tsim import adjoint, close, conj_reversed

RULE = 'distinct (boundary, operation sequence) combinations'
REQUIRED = ['H', 'S', 'T', 'X', 'Y', 'Z', 'Rx', 'Ry', 'Rz', 'custom',
            'controlled', 'nested_control', 'distant_control',
            'control_left', 'control_right', 'controlled_two_qubit',
            'builder', 'distant_builder_swap', 'ket', 'bra', 'scalar',
            'sqrt', 'swap', 'bit_swap', 'mixed_swap', 'permutation', 'cup',
            'cap', 'spider', 'custom_shape', 'bit', 'bit_effect',
            'classical', 'measure', 'encode', 'discard', 'mixed_state',
            'dagger', 'rotated', 'pure', 'mixed', 'pure_as_mixed',
            'whole_dagger', 'whole_rotated', 'decomposed', 'jax',
            'angle', 'trace_preserved', 'init_discard', 'circuital',
            'wide', 'wide_cup', 'wide_cap', 'wide_spider', 'wide_snake',
            'wide_fuse', 'complex_root', 'late_ket',
            'superop', 'superop_dagger', 'superop_rotated']


def setup():
    import jax
    jax.config.update('jax_enable_x64', True)


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


def start(c, mixed):
    kinds = 'qqqb' if mixed else 'q'
    return [c.choice(kinds) for _ in range(c.int(0, 3))]


def build(c, mixed, steps=None, types=None):
    g = Prog(c, start(c, mixed) if types is None else types)
    g.complex_roots = True
    for _ in range(c.int(1, 8) if steps is None else steps):
        g.step(Prog.MIXED + ['superop'] if mixed else Prog.PURE)
    return g


def snapshot(d):
    return repr(d), [(repr(b), np.array(b.data, dtype=object).tolist())
                     for b in d.boxes]


def value(c, d, want, mech, **kw):
    got = np.asarray(d.eval(**kw))
    c.check(got.shape == want.shape, mech + '-shape',
            lambda: f'{got.shape} != {want.shape}')
    c.check(close(got, want, 1e-7), mech, lambda: f'{got} != {want}')


def boundary(c, d, g):
    c.check([t.label for t in d.dom] == [
        'qubit' if t == 'q' else 'bit' for t in g.ref.ins]
        and [t.label for t in d.cod] == [
            'qubit' if t == 'q' else 'bit' for t in g.types], 'boundary')


def fam_pure(c):
    g = build(c, False)
    g.note()
    d = g.diag
    boundary(c, d, g)
    c.check(not d.is_mixed, 'classified-mixed')
    c.ev('pure')
    before = snapshot(d)
    value(c, d, g.ref.pure.arr, 'amplitudes')
    if g.ref.mixed.arr.size <= 4 ** 6:
        c.ev('pure_as_mixed')
        value(c, d, g.ref.mixed_array(), 'pure-as-mixed', mixed=True)
    m = len(g.ref.ins)
    if c.p(.4):
        c.ev('whole_dagger')
        value(c, d.dagger(), adjoint(g.ref.pure.arr, m), 'adjoint')
    if c.p(.3):
        c.ev('whole_rotated')
        value(c, d.rotate(c.choice([1, -1])),
              conj_reversed(g.ref.pure.arr, m), 'reflection')
    c.eq(snapshot(d), before, 'input-altered')


def flip(types, start):
    """Axis order for the mirrored wires, in bits-kets-bras order."""
    bits = types.count('b')
    qs = types.count('q')
    out, i = [], start
    for n in (bits, qs, qs):
        out += list(range(i, i + n))[::-1]
        i += n
    return out


def fam_mixed(c):
    g = build(c, True)
    g.note()
    d = g.diag
    boundary(c, d, g)
    c.ev('mixed')
    before = snapshot(d)
    want = g.ref.mixed_array()
    if want.size > 4 ** 7:
        c.skip('too big')
    kinds = set(g.ref.ins) | set(g.types)
    mixing = g.ref.pure is None or len(kinds) > 1
    c.check(d.is_mixed == mixing, 'classification', d.is_mixed)
    value(c, d, want, 'mixed', mixed=True)
    if mixing:
        value(c, d, want, 'mixed-by-default')
    else:
        value(c, d, g.ref.pure.arr, 'pure-with-bits')
    m = len(g.ref.mixed.ins)
    if c.p(.3):
        c.ev('whole_dagger')
        value(c, d.dagger(), adjoint(want, m), 'mixed-adjoint', mixed=True)
    if c.p(.2):
        c.ev('whole_rotated')
        order = flip(g.ref.ins, 0) + flip(g.types, m)
        value(c, d.rotate(1), np.conj(want.transpose(order)),
              'mixed-reflection', mixed=True)
    c.eq(snapshot(d), before, 'input-altered')
    if c.p(.4):
        c.ev('init_discard')
        e = d.init_and_discard()
        c.check(len(e.dom) == 0 and e.cod == bit ** len(e.cod)
                and len(e.cod) == g.types.count('b'), 'init-boundary')
        value(c, e, g.ref.distribution(), 'init-and-discard', mixed=True)


def fam_channel(c):
    """Physical circuits keep total probability one."""
    g = Prog(c)
    for _ in range(c.int(1, 3)):
        c.choice([g.op_ket, g.op_bit])()
    for _ in range(c.int(1, 8)):
        k = c.choice(['gate', 'gate', 'controlled', 'controlled', 'swap',
                      'measure', 'encode', 'discard', 'ket', 'bit'])
        g.step([k])
    if any('custom' in str(o[0]) for o in g.ops):
        c.skip('not unitary')
    g.note()
    c.ev('trace_preserved')
    e = g.diag.init_and_discard()
    p = np.asarray(e.eval(mixed=True))
    c.check(abs(p.sum() - 1) < 1e-7, 'total-probability', p.sum())
    c.check(np.abs(p.imag).max() < 1e-9 and p.real.min() > -1e-9,
            'not-a-distribution', p)
    c.check(close(p, g.ref.distribution(), 1e-7), 'distribution', p)


def fam_angle(c):
    """Angle convention, on its own and through controls."""
    n = c.choice(sorted(ROT))
    p, q = c.rng.uniform(-3, 3), c.rng.uniform(-3, 3)
    c.note(n, p=p, q=q)
    c.sig(n, p)
    c.ev('angle')
    r = qsim.tensor_of(qsim.rotation(n, p))
    c.check(close(ROT[n](p).array, r), 'angle')
    c.check(abs(ROT[n](p).phase - p) < 1e-12, 'phase')
    d = ROT[n](p) >> ROT[n](q)
    value(c, d, qsim.tensor_of(qsim.rotation(n, p + q)), 'angles-add')
    value(c, ROT[n](p) >> ROT[n](p).dagger(), np.eye(2), 'inverse')
    g = getattr(Q, 'C' + n)
    k = c.choice([1, -1, 2, -2])
    box = g(p, k)
    w = 1 + abs(k)
    mat = qsim.controlled(w, 0 if k > 0 else w - 1, [k] if k > 0 else [0],
                          qsim.rotation(n, p))
    value(c, box.to_diagram() if hasattr(box, 'to_diagram')
          else Id(box.dom) >> box, qsim.tensor_of(mat), 'controlled-angle')
    c.check(abs(box.phase - p) < 1e-12, 'phase')


def fam_decompose(c):
    """Expanding controlled gates to neighbouring ones."""
    g = Prog(c, 'q' * c.int(2, 4))
    n = 0
    while not g.ops:
        g.op_controlled()
        n += 1
    g.note()
    box = next(b for b in g.diag.boxes if isinstance(b, Controlled))
    before = repr(box), snapshot(g.diag)
    d = box.decompose()
    d = Id(box.dom) >> d
    c.ev('decomposed')
    i, = [len(lay.left) for lay in g.diag.layers if lay.box == box][:1]
    lo = len(box.dom)
    c.check(all(b.distance == 1 for b in d.boxes
                if isinstance(b, Controlled)), 'not-neighbouring')
    c.check(d.dom == box.dom and d.cod == box.cod, 'decompose-boundary')
    left = Id(qubit ** i)
    right = Id(qubit ** (len(g.diag.dom) - i - lo))
    value(c, left @ d @ right, g.ref.pure.arr, 'decomposed')
    c.eq((repr(box), snapshot(g.diag)), before, 'input-altered')
    value(c, g.diag, g.ref.pure.arr, 'amplitudes')


def fam_backend(c):
    """The same circuit with JAX numbers."""
    mixed = c.p(.5)
    g = build(c, mixed, c.int(1, 5))
    g.note()
    c.ev('jax')
    want = g.ref.mixed_array() if mixed else g.ref.pure.arr
    if want.size > 4 ** 6:
        c.skip('too big')
    with backend('jax'):
        got = g.diag.eval(mixed=mixed)
    c.check('jax' in type(got).__module__, 'result-kind', type(got))
    got = np.asarray(got)
    c.check(got.shape == want.shape, 'jax-shape')
    c.check(close(got, want, 1e-6), 'jax-value',
            lambda: f'{got} != {want}')


CIRCUITAL = ['gate'] * 5 + ['controlled'] * 4 + [
    'ket', 'bra', 'discard', 'swap', 'scalar', 'gate2', 'measure']


def fam_circuital(c):
    """The form used by the exporters, and the gate list read off it."""
    n = c.int(0, 3)
    g = Prog(c, 'q' * n)
    if not n:
        g.op_ket()
    for _ in range(c.int(1, 7)):
        g.step(CIRCUITAL)
    brought(c, g)


def fam_late(c):
    """Qubits that only start to exist inside of a controlled gate."""
    g = Prog(c, 'q' * c.int(2, 4), most=6)
    for _ in range(c.int(1, 2)):
        for _ in range(c.int(1, 2)):
            g.op_controlled()
        for _ in range(c.int(1, 2)):
            g.op_ket()
        if c.p(.3):
            g.step(['bra', 'discard', 'measure', 'swap'])
    c.ev('late_ket')
    brought(c, g)


def brought(c, g):
    """Into the form of the exporters."""
    g.note()
    d = g.diag
    before = snapshot(d)
    odd = any('custom' in str(o[0]) or 'C' in o[0] and 'SWAP' in o[0]
              for o in g.ops)
    try:
        e = to_circuital(d)
    except NotImplementedError:
        # only for a two-qubit gate with a qubit passing through it
        c.check(odd, 'refused-needlessly')
        c.ev('refused')
        return
    except ValueError:
        # exchanging measured wires is refused
        names = [o[0] for o in g.ops]
        c.check('measure' in names and 'perm' in names, 'crash')
        c.ev('refused')
        return
    c.ev('circuital')
    c.eq(snapshot(d), before, 'input-altered')
    c.check(e.is_circuital, 'not-circuital')
    value(c, e, g.ref.distribution(), 'circuital-value', mixed=True)


def fam_frobenius(c):
    """Wide cups, caps and spiders of qubits, alone and plugged."""
    kind = c.choice(['cup', 'cap', 'spider', 'snake', 'fuse'])
    spider = Q.Diagram.special_boxes['spider']
    if kind in ('cup', 'cap'):
        n = c.int(1, 5)
        make = Q.Diagram.cups if kind == 'cup' else Q.Diagram.caps
        d = make(qubit ** n, qubit ** n)
        t = np.eye(2 ** n).reshape([2] * (2 * n))
        want = t.transpose(list(range(n)) + list(range(n, 2 * n))[::-1])
        sizes = (2 * n, 0) if kind == 'cup' else (0, 2 * n)
        wide = n > 2
    elif kind == 'snake':
        n = c.int(1, 3)
        left = c.p(.5)
        q, i = qubit ** n, Q.Id(qubit ** n)
        cap, cup = Q.Diagram.caps(q, q), Q.Diagram.cups(q, q)
        d = (cap @ i >> i @ cup) if left else (i @ cap >> cup @ i)
        want = np.eye(2 ** n).reshape([2] * (2 * n))
        sizes, wide = (n, n), n > 2
    elif kind == 'spider':
        i = c.int(0, 6)
        o = c.int(0 if i else 1, 8 - i if i < 6 else 2)
        d, want = spider(qubit, i, o), qsim.delta(2, i + o)
        sizes, wide = (i, o), max(i, o) > 4
    else:
        i, m, o = c.int(0, 4), c.int(1, 4), c.int(0, 4)
        d = spider(qubit, i, m) >> spider(qubit, m, o)
        if i + o == 0:
            want = np.array(2.)
        else:
            want = qsim.delta(2, i + o)
        sizes, wide = (i, o), i + o > 5
    c.sig(kind, *sizes)
    c.note(f'{kind} {sizes}')
    c.ev('wide_' + kind)
    if wide:
        c.ev('wide')
    c.check((len(d.dom), len(d.cod)) == sizes
            and all(t.label == 'qubit' for t in d.dom @ d.cod), 'boundary')
    c.check(not d.is_mixed, 'classified-mixed')
    value(c, d, want, kind)
    if c.p(.3):
        value(c, d.dagger(), adjoint(np.asarray(want), sizes[0]),
              kind + '-adjoint')


FAMILIES = [
    Family('pure', fam_pure, 500),
    Family('mixed', fam_mixed, 500),
    Family('channel', fam_channel, 150),
    Family('angle', fam_angle, 60),
    Family('decompose', fam_decompose, 80),
    Family('backend', fam_backend, 100),
    Family('circuital', fam_circuital, 200),
    Family('late', fam_late, 200),
    Family('frobenius', fam_frobenius, 100),
]
