"""P24 Parameters are tracked and substituted exactly."""
import numpy as np

from lambeq.backend import quantum as Q
from lambeq.backend import tensor as T
from lambeq.backend.quantum import bit, qubit, to_circuital
from lambeq.backend.symbol import Symbol, lambdify
from lambeq.backend.tensor import Dim
from vf import qsim
from vf.core import Family
from vf.qprog import Prog, phase
from vf.tsim import Ref, close, conj_reversed

RULE = 'distinct (boundary, operations, way each parameter is written)'
REQUIRED = ['plain', 'negated', 'scaled', 'shared', 'constant', 'dagger',
            'rotated', 'controlled', 'nested_control', 'builder', 'Rx', 'Ry',
            'Rz', 'pure', 'mixed', 'reused', 'extra',
            'shuffled', 'then', 'tensor', 'whole_dagger', 'whole_rotated',
            'tensor_box', 'symbol_array', 'quantum_array', 'mixed_box',
            'same_name', 'algebra', 'hash', 'sympy', 'order', 'partial',
            'circuital', 'decomposed', 'in_place', 'no_symbols',
            'hermitian']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


class Sym(Prog):
    """A circuit with parameters, whose reference uses their values."""

    def __init__(self, c, *args, table=None, **kw):
        super().__init__(c, *args, **kw)
        self.table = {} if table is None else table
        self.used = set()
        self.styles = []

    def param(self):
        c = self.c
        if c.p(.15):
            c.ev('constant')
            return super().param()
        if self.table and c.p(.4):
            s = c.choice(sorted(self.table, key=key))
            if s in self.used:
                c.ev('shared')
        else:
            s = Symbol(c.choice(['a', 'b', 'word__n.r@s_0', 'x y', 'θ',
                                 'a0', 'A']))
            if s not in self.table:
                self.table[s] = round(c.rng.uniform(-1, 2), 3)
        v = self.table[s]
        self.used.add(s)
        k = c.choice(['plain', 'plain', 'negated', 'scaled', 'scaled',
                      'double'])
        c.ev('scaled' if k == 'double' else k)
        self.styles.append((k, s.name))
        if k == 'plain':
            return s, v
        if k == 'negated':
            return (-s, -v) if c.p(.8) else (-(-(-s)), -v)
        f = c.choice([2, .5, -1.5, 3., -1, .25, 0])
        if f == 0 and c.p(.8):
            f = 2
        if k == 'double':
            return (f * s) * 2, 2 * f * v
        return (f * s if c.p(.5) else s * f), f * v

    def note(self):
        super().note()
        self.c.note(styles=self.styles)
        self.c.sig(tuple(self.ops), tuple(self.styles))


def key(s):
    return (s.name, s.directed_dom, s.directed_cod)


def keys(symbols):
    return sorted(key(s) for s in symbols)


def snapshot(d):
    return repr(d), [(type(b), repr(b), repr(b.data)) for b in d.boxes]


def tracked(c, d, used, mech):
    got = list(d.free_symbols)
    c.eq(keys(got), keys(used), mech)
    c.check(all(s.scale == 1 for s in got), mech + '-scale',
            lambda: f'{got}')


def subs(c, d, table, extra=True, order=None):
    """Substitute the values of `table` in some order."""
    syms = sorted(d.free_symbols, key=key)
    if extra and c.p(.4):
        more = [s for s in sorted(table, key=key) if s not in syms]
        more += [Symbol('unused'), Symbol('a', 3, 2)]
        more = [s for s in more if s not in syms]
        syms += c.rng.sample(more, c.int(1, len(more)))
        c.ev('extra')
    c.rng.shuffle(syms)
    if len(syms) > 1:
        c.ev('shuffled')
    vals = [table.get(s, 99.) for s in syms]
    return d.lambdify(*syms), vals, syms


def value(c, d, want, mech, **kw):
    c.check(not d.free_symbols, mech + '-left',
            lambda: f'{d.free_symbols}')
    got = np.asarray(d.eval(**kw))
    c.check(got.shape == want.shape, mech + '-shape',
            lambda: f'{got.shape} != {want.shape}')
    c.check(close(got, want, 1e-6), mech, lambda: f'{got} != {want}')


def build(c, mixed, table=None, types=None, steps=None):
    if types is None:
        kinds = 'qqqb' if mixed else 'q'
        types = [c.choice(kinds) for _ in range(c.int(0, 3))]
    g = Sym(c, types, table=table)
    kinds = list(Prog.MIXED if mixed else Prog.PURE)
    kinds += ['gate', 'controlled', 'builder'] * 4
    for _ in range(c.int(1, 8) if steps is None else steps):
        g.step(kinds)
    return g


def retable(c, table):
    return {s: round(c.rng.uniform(-1, 2), 3) for s in table}


def run_circuit(c, mixed):
    g = build(c, mixed)
    g.note()
    d = g.diag
    before = snapshot(d)
    tracked(c, d, g.used, 'free-symbols')
    c.ev('mixed' if d.is_mixed else 'pure')
    if not g.used:
        c.ev('no_symbols')
    fn, vals, syms = subs(c, d, g.table)
    got = fn(*vals)
    c.eq(got.dom, d.dom, 'dom')
    c.eq(got.cod, d.cod, 'cod')
    c.eq(len(got.boxes), len(d.boxes), 'length')
    mixed = d.is_mixed
    want = g.ref.mixed_array() if mixed else g.ref.pure.arr
    value(c, got, want, 'substituted')
    c.eq(snapshot(d), before, 'original-changed')
    tracked(c, d, g.used, 'free-symbols-after')
    # the same function serves any number of values
    if syms:
        c.ev('reused')
        other = [v + .37 for v in vals]
        fn(*other)
        again = fn(*vals)
        value(c, again, want, 'reused')
        value(c, got, want, 'earlier-result')
        half = fn(*[v + 1.1 for v in vals])
        fresh = d.lambdify(*syms)(*[v + 1.1 for v in vals])
        c.close(np.asarray(half.eval()), np.asarray(fresh.eval()),
                'reused-other')
    return g, d, want


def fam_pure(c):
    run_circuit(c, False)


def fam_mixed(c):
    run_circuit(c, True)


def at(d, table):
    syms = sorted(d.free_symbols, key=key)
    return d.lambdify(*syms)(*[table[s] for s in syms])


CIRCUITAL = ['gate'] * 5 + ['controlled'] * 4 + ['ket', 'discard', 'swap']


def fam_commute(c):
    """Substituting then composing is composing then substituting."""
    mixed = c.p(.4)
    table = {}
    g = build(c, mixed, table, steps=c.int(1, 4))
    h = build(c, mixed, table, types=list(g.types), steps=c.int(1, 4))
    k = build(c, mixed, table, types=[c.choice('qb') if mixed else 'q'],
              steps=c.int(1, 3))
    c.note(g=g.ops, h=h.ops, k=k.ops,
           styles=g.styles + h.styles + k.styles)
    c.sig(tuple(g.ops), tuple(h.ops), tuple(k.ops))
    op = c.choice(['then', 'tensor', 'whole_dagger', 'whole_rotated',
                   'all', 'circuital'])
    if op == 'circuital':
        g = Sym(c, ['q'] * c.int(1, 3), table={})
        table = g.table
        while not g.diag.boxes:
            for _ in range(c.int(1, 6)):
                g.step(CIRCUITAL)
        h = k = Sym(c, table=table)
    dirty = mixed
    fns = {
        'then': lambda a, b, e: a >> b,
        'tensor': lambda a, b, e: a @ e,
        'whole_dagger': lambda a, b, e: a.dagger(),
        'whole_rotated': lambda a, b, e: a.l if c_rot else a.r,
        'all': lambda a, b, e: ((a >> b).dagger() @ e.r).l,
        'circuital': lambda a, b, e: to_circuital(a),
    }
    c_rot = c.p(.5)
    c.ev(op)
    f = fns[op]
    parts = (g.diag, h.diag, k.diag)
    used = {'then': g.used | h.used, 'tensor': g.used | k.used,
            'all': g.used | h.used | k.used}.get(op, g.used)
    try:
        whole = f(*parts)
        split = f(*[at(d, table) for d in parts])
    except (NotImplementedError, ValueError) as e:
        if op != 'circuital':
            raise
        c.skip(f'{e}')
    if op != 'circuital':
        tracked(c, whole, used, f'{op}-free-symbols')
    else:
        c.check(set(keys(whole.free_symbols)) <= set(keys(used)),
                f'{op}-free-symbols')
    whole = at(whole, table)
    if op == 'circuital':
        c.check(not whole.free_symbols, 'left')
    value(c, whole, np.asarray(split.eval(mixed=dirty)), f'{op}-commutes',
          mixed=dirty)


def fam_boxes(c):
    """Single gates: substitution gives the very gate."""
    table = {}
    g = Sym(c, ['q'] * 4, table=table)
    box, mat, n = g.single()
    wide = 4
    if c.p(.7):
        box, mat, n = g.vary(box, mat, n)
        for _ in range(c.int(0, 3)):
            k = int(np.log2(mat.shape[0]))
            if k < wide:
                box, mat, n = g.control(box, mat, n, wide)
                c.ev('controlled')
        box, mat, n = g.vary(box, mat, n)
    c.note(gate=n, styles=g.styles)
    c.sig(n, tuple(g.styles))
    before = repr(box), repr(box.data)
    tracked(c, box, g.used, 'gate-free-symbols')
    fn, vals, _ = subs(c, box, table)
    out = fn(*vals)
    c.check(not out.free_symbols, 'gate-left')
    c.eq((out.dom, out.cod), (box.dom, box.cod), 'gate-type')
    value(c, Q.Id(out.dom) >> out, qsim.tensor_of(mat), 'gate-value')
    c.eq((repr(box), repr(box.data)), before, 'gate-changed')
    if isinstance(box, Q.Controlled):
        dec = box.decompose()
        c.ev('decomposed')
        tracked(c, dec, g.used, 'decomposed-free-symbols')
        value(c, at(dec, table), qsim.tensor_of(mat), 'decomposed-value')


def fam_tensor(c):
    """Tensor diagrams of boxes whose whole array is one parameter."""
    table, used = {}, set()
    dims = [c.choice([2, 3]) for _ in range(c.int(0, 3))]
    ref, diag, ops = Ref(dims), None, []
    diag = T.Id(Dim(*dims))
    for i in range(c.int(1, 5)):
        w = list(ref.wires)
        n_in = c.int(0, min(2, len(w)))
        pos = c.int(0, len(w) - n_in)
        ins = w[pos:pos + n_in]
        outs = [c.choice([2, 3]) for _ in range(
            c.int(0, max(0, min(2, 4 - len(w) + n_in))))]
        flip = c.p(.3)
        rot = c.p(.3)
        a, b = (outs, ins) if flip else (ins, outs)
        if rot:
            a, b = a[::-1], b[::-1]
        m, n = int(np.prod(a)), int(np.prod(b))
        kind = c.choice(['whole'] * 3 + ['entries', 'number'])
        if kind == 'whole':
            s = Symbol(c.choice('ab'), m, n)
            if s in used:
                c.ev('shared')
            elif any(t.name == s.name for t in table):
                c.ev('same_name')
            if s not in table:
                table[s] = c.np.normal(size=(m, n)) + 1j * c.np.normal(
                    size=(m, n))
                if c.p(.5):
                    table[s] = table[s].reshape(-1)
            used.add(s)
            f = c.choice([1, 1, -1, 2, -.5])
            c.ev({1: 'plain', -1: 'negated'}.get(f, 'scaled'))
            data = s if f == 1 else -s if f == -1 else f * s
            arr = f * table[s].reshape(tuple(a) + tuple(b))
            c.ev('tensor_box')
        elif kind == 'entries':
            entries, nums = [], []
            for _ in range(m * n):
                if c.p(.5):
                    s = Symbol(c.choice('pqr'))
                    table.setdefault(s, c.rng.uniform(-2, 2))
                    used.add(s)
                    f = c.choice([1, -1, 2])
                    entries.append(f * s if f != 1 else s)
                    nums.append(f * table[s])
                else:
                    x = c.rng.uniform(-1, 1)
                    entries.append(x)
                    nums.append(x)
            data = np.array(entries, dtype=object if any(
                isinstance(e, Symbol) for e in entries) else float)
            if a + b and c.p(.5):
                data = data.reshape(tuple(a) + tuple(b))
            arr = np.array(nums, dtype=float).reshape(tuple(a) + tuple(b))
            f = 'entries'
            c.ev('symbol_array')
        else:
            arr = c.np.normal(size=tuple(a) + tuple(b))
            data, f = arr, 'number'
        box = T.Box(f'f{i}', Dim(*a), Dim(*b), data)
        if rot:
            box, arr = box.rotate(1), conj_reversed(arr, len(a))
            a, b = a[::-1], b[::-1]
            c.ev('rotated')
        if flip:
            box = box.dagger()
            arr = np.conj(arr.transpose(
                list(range(len(a), len(a) + len(b))) + list(range(len(a)))))
            c.ev('dagger')
        t = Dim(*w)
        diag = diag >> (T.Id(Dim(*w[:pos])) @ box
                        @ T.Id(Dim(*w[pos + n_in:])))
        ref.apply(pos, n_in, arr)
        ops.append((kind, pos, tuple(ins), tuple(outs), flip, rot, f))
    c.note(dims=dims, ops=ops)
    c.sig(tuple(dims), tuple(ops))
    c.sample(f'{dims} {ops}')
    before = snapshot(diag)
    tracked(c, diag, used, 'tensor-free-symbols')
    for twice in range(2):
        fn, vals, syms = subs(c, diag, table)
        got = fn(*vals)
        c.check(not got.free_symbols, 'tensor-left',
                lambda: f'{got.free_symbols}')
        v = np.asarray(got.eval(dtype=complex))
        c.check(v.shape == ref.arr.shape and close(v, ref.arr, 1e-6),
                'tensor-value', lambda: f'{v} != {ref.arr}')
    whole = diag.dagger()
    tracked(c, whole, used, 'tensor-dagger-free-symbols')
    n = len(dims)
    want = np.conj(ref.arr.transpose(
        list(range(n, ref.arr.ndim)) + list(range(n))))
    v = np.asarray(at(whole, table).eval(dtype=complex))
    c.check(close(v, want, 1e-6), 'tensor-dagger-value')
    # leaving some parameters for later
    some = sorted(used, key=key)
    c.rng.shuffle(some)
    boxes_whole = all(o[0] != 'entries' for o in ops)
    if len(some) > 1 and boxes_whole:
        c.ev('partial')
        k = c.int(1, len(some) - 1)
        first, rest = some[:k], some[k:]
        part = diag.lambdify(*first)(*[table[s] for s in first])
        tracked(c, part, rest, 'partial-free-symbols')
        done = part.lambdify(*rest)(*[table[s] for s in rest])
        v = np.asarray(done.eval(dtype=complex))
        c.check(close(v, ref.arr, 1e-6), 'partial-value')
    c.eq(snapshot(diag), before, 'tensor-original-changed')


def fam_quantum_box(c):
    """Custom gates given by a parameter or an array of parameters."""
    k = c.int(1, 2)
    n = 2 ** k
    mixed = c.p(.3)
    name = c.choice('fg')
    z = 0
    if mixed:
        # qubit -> bit, given as the array (qubit, qubit', bit)
        s = Symbol('m', 2, 4)
        val = c.np.normal(size=(2, 2, 2)) + 1j * c.np.normal(size=(2, 2, 2))
        box = Q.Box(name, qubit, bit, s, is_mixed=True)
        same = Q.Box(name, qubit, bit, val, is_mixed=True)
        table = {s: val}
        c.ev('mixed_box')
        c.sig('mixed', name)
        got = at(Q.Ket(0) >> Q.H >> box, table)
        want = Q.Ket(0) >> Q.H >> same
        c.eq(got.boxes[-1].is_mixed, True, 'mixedness')
        psi = np.array([1, 1]) / np.sqrt(2)
        ref = np.einsum('i,j,ijk->k', psi, psi, val)
        c.check(close(np.asarray(got.eval()), ref, 1e-6), 'mixed-box-value')
        return
    hermitian = c.p(.2)
    if hermitian:
        s = Symbol('m', n, n)
        val = c.np.normal(size=(n, n)) + 1j * c.np.normal(size=(n, n))
        val = val + val.conj().T
        f = c.choice([1, -1, 2])
        data, arr, table = (s if f == 1 else f * s), f * val, {s: val}
        c.ev('hermitian')
    elif c.p(.5):
        s = Symbol('m', n, n)
        val = c.np.normal(size=(n, n)) + 1j * c.np.normal(size=(n, n))
        f = c.choice([1, -1, 2])
        data, arr, table = (s if f == 1 else f * s), f * val, {s: val}
        c.ev('tensor_box')
    else:
        table, entries, nums = {}, [], []
        for _ in range(n * n):
            s = Symbol(c.choice('pqr'))
            table.setdefault(s, c.rng.uniform(-2, 2))
            f = c.choice([1, -1, 2, 0])
            entries.append(f * s if f else .5)
            nums.append(f * table[s] if f else .5)
        table = {s: v for s, v in table.items()
                 if any(isinstance(e, Symbol) and e.name == s.name
                        for e in entries)}
        data = np.array(entries, dtype=object).reshape(n, n)
        arr = np.array(nums, dtype=float).reshape(n, n)
        c.ev('quantum_array')
    # the array lists inputs first
    box = Q.Box(name, qubit ** k, qubit ** k, data,
                self_adjoint=hermitian)
    if hermitian:
        # declared to be its own adjoint: so is the box with numbers in
        one = at(Q.Id(box.dom) >> box, table)
        c.eq(one.dagger(), one, 'own-adjoint')
        c.eq(at((Q.Id(box.dom) >> box).dagger(), table), one,
             'own-adjoint')
    t = np.asarray(arr).reshape((2,) * (2 * k))
    ops = []
    for _ in range(c.int(0, 2)):
        if c.p(.5):
            box = box.dagger()
            t = np.conj(t.transpose(list(range(k, 2 * k)) + list(range(k))))
            ops.append('†')
            c.ev('dagger')
        else:
            box = box.rotate(1)
            t = conj_reversed(t, k)
            ops.append("'")
            c.ev('rotated')
    if k == 1 and c.p(.4):
        box = Q.Controlled(box, 1)
        u = np.eye(4, dtype=complex).reshape(2, 2, 2, 2)
        u[1, :, 1, :] = t
        t = u
        ops.append('C')
        c.ev('controlled')
    c.note(k=k, ops=ops, data=repr(data))
    c.sig(k, tuple(ops), repr(data) if isinstance(data, Symbol) else 'arr')
    tracked(c, box, table, 'box-free-symbols')
    d = Q.Id(box.dom) >> box
    fn, vals, _ = subs(c, d, table)
    value(c, fn(*vals), t, 'box-value')


def fam_symbol(c):
    """The algebra of symbols."""
    def sym():
        return Symbol(c.choice(['a', 'b', 'ab', 'x__n.l']),
                      c.choice([1, 1, 2]), c.choice([1, 1, 3]))
    s = sym()
    name, m, n = key(s)
    f, h = c.rng.uniform(-3, 3), c.choice([2, -1, .5, 3])
    c.ev('algebra')
    c.sig(key(s), h)
    v = c.rng.uniform(-2, 2)

    def val(e):
        return lambdify([Symbol('other'), s], e)(7, v)
    cases = [(s, 1), (-s, -1), (f * s, f), (s * f, f), (-(f * s), -f),
             ((f * s) * h, f * h), (h * (f * s), f * h), (-(-s), 1),
             (f * s * (1 / h) * h, f)]
    for e, scale in cases:
        c.check(close(e.scale, scale), 'scale', lambda: f'{e!r} {scale}')
        c.eq(key(e), key(s), 'symbol-identity')
        c.eq(e.size, m * n, 'size')
        c.eq(e.unscaled, s, 'unscaled')
        c.check(close(val(e), scale * v), 'symbol-value',
                lambda: f'{e!r}: {val(e)} != {scale * v}')
        arr = c.np.normal(size=(m, n))
        c.check(close(lambdify([s], e)(arr), scale * arr), 'array-value')
        sp = e.to_sympy()
        import sympy
        c.eq({str(x) for x in sp.free_symbols}, {name}, 'sympy-symbol')
        c.check(abs(float(sp.subs(sympy.Symbol(name), v)) - scale * v)
                < 1e-9, 'sympy-value')
        c.eq(s.scale, 1, 'changed')
    c.ev('sympy')
    t = sym()
    t = t if c.p(.5) else t * c.choice([1, 2, -1])
    same = (key(s), s.scale) == (key(t), t.scale)
    c.eq(s == t, same, 'equality')
    if same:
        c.eq(hash(s), hash(t), 'hash')
        c.eq(len({s, t}), 1, 'set')
    else:
        c.eq(len({s, t}), 2, 'set')
    c.ev('hash')
    names = [Symbol(''.join(c.choice('abc') for _ in range(c.int(1, 3))))
             for _ in range(6)]
    c.eq([x.name for x in sorted(names)], sorted(x.name for x in names),
         'order')
    c.ev('order')
    x = c.choice([3, 2.5, None])
    c.eq(lambdify([s], x)(v), x, 'constant')


def fam_in_place(c):
    """The lambdified function and the original stay independent."""
    g = build(c, False, steps=5)
    g.note()
    c.ev('in_place')
    d = g.diag
    before = snapshot(d)
    a = at(d, g.table)
    snap = snapshot(a)
    want = np.asarray(a.eval())
    b = at(d, retable(c, g.table))
    b.eval()
    (a >> a.dagger()).eval()
    c.eq(snapshot(a), snap, 'substituted-changed')
    c.check(close(np.asarray(a.eval()), want, 1e-9), 'value-changed')
    c.eq(snapshot(d), before, 'original-changed')
    e = d @ Q.Id(qubit)
    tracked(c, d, g.used, 'free-symbols-d')
    tracked(c, e >> (Q.Id(e.cod[:-1]) @ Q.Rx(Symbol('extra'))),
            g.used | {Symbol('extra')}, 'free-symbols-e')
    tracked(c, d, g.used, 'free-symbols-d-again')


FAMILIES = [
    Family('pure', fam_pure, 500),
    Family('mixed', fam_mixed, 300),
    Family('commute', fam_commute, 350),
    Family('boxes', fam_boxes, 500),
    Family('tensor', fam_tensor, 300),
    Family('quantum_box', fam_quantum_box, 300),
    Family('symbol', fam_symbol, 300),
    Family('in_place', fam_in_place, 100),
]
