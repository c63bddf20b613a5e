"""P17 Circuit ansätze are well-typed functors with consistent parameters."""
import re

import numpy as np

from lambeq import (IQPAnsatz, Sim4Ansatz, Sim9Ansatz, Sim9CxAnsatz,
                    Sim14Ansatz, Sim15Ansatz, StronglyEntanglingAnsatz)
from lambeq.backend import grammar as G
from lambeq.backend import quantum as Q
from vf import qsim
from vf.anz import AnsatzInterp, TooBig, value_of
from vf.core import Family
from vf.gen import flat, mk, rand_box, rand_diagram, rand_ty, \
    sentence_diagram, VOCAB, rand_frame
from vf.sem import box_key, key
from vf.tsim import close

RULE = 'distinct (ansatz class, options, diagram) combinations evaluated'
CLASSES = [IQPAnsatz, Sim4Ansatz, Sim9Ansatz, Sim9CxAnsatz, Sim14Ansatz,
           Sim15Ansatz, StronglyEntanglingAnsatz]
REQUIRED = ([k.__name__ for k in CLASSES]
            + [f'{k.__name__}:wide' for k in CLASSES]
            + ['one_qubit', 'zero_qubits', 'two_qubit_wire', 'odd_two_qubit',
               'ancilla', 'ancilla_map', 'ancilla_function', 'discard',
               'postselect', 'basis', 'rotations_option', 'box_with_domain',
               'rotated', 'daggered', 'spider', 'swap', 'sentence',
               'zero_layers', 'many_layers', 'ranges', 'bad_ranges',
               'frames_refused', 'shared_word', 'distinct_words', 'two_domains',
               'same_word_two_types', 'again', 'norm', 'mixed_value',
               'type_codomain', 'odd_names'])


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


# ---------------------------------------------------------------- templates

def rot(n, q, axis, t):
    return qsim.on(n, [q], qsim.rotation(axis, t))


def crot(n, a, b, axis, t):
    return qsim.controlled(n, a, [b], qsim.rotation(axis, t))


def layer_iqp(n, k, L, p):
    yield from (qsim.on(n, [q], qsim.FIXED['H']) for q in range(n))
    for i in range(n - 1):
        yield crot(n, i, i + 1, 'Rz', p[i])


def layer_sim4(n, k, L, p):
    for q in range(n):
        yield rot(n, q, 'Rx', p[q])
    for q in range(n):
        yield rot(n, q, 'Rz', p[n + q])
    for i in range(n - 1):
        yield crot(n, i, i + 1, 'Rx', p[2 * n + i])


def ladder(gate):
    def layer(n, k, L, p):
        yield from (qsim.on(n, [q], qsim.FIXED['H']) for q in range(n))
        for i in range(n - 1):
            yield qsim.controlled(n, i, [i + 1], qsim.FIXED[gate])
        for q in range(n):
            yield rot(n, q, 'Rx', p[q])
    return layer


def layer_sim14(n, k, L, p):
    for q in range(n):
        yield rot(n, q, 'Ry', p[q])
    for i in range(n):
        yield crot(n, i, (i - 1) % n, 'Rx', p[n + i])
    for q in range(n):
        yield rot(n, q, 'Ry', p[2 * n + q])
    # the second ring starts at the last qubit and uses its own parameters
    for j in range(n):
        i = n - j
        yield crot(n, i % n, (i + 1) % n, 'Rx', p[3 * n + j])


def layer_sim15(n, k, L, p):
    for q in range(n):
        yield rot(n, q, 'Ry', p[q])
    for i in range(n):
        yield qsim.controlled(n, i, [(i - 1) % n], qsim.PX)
    for q in range(n):
        yield rot(n, q, 'Ry', p[n + q])
    for j in range(n):
        i = n - j
        yield qsim.controlled(n, i % n, [(i + 1) % n], qsim.PX)


def layer_strong(n, k, L, p, ranges=None):
    for q in range(n):
        for axis, t in zip(('Rz', 'Ry', 'Rz'), p[3 * q:3 * q + 3]):
            yield rot(n, q, axis, t)
    r = ranges[k] if ranges else k % (n - 1) + 1
    for q in range(n):
        yield qsim.controlled(n, q, [(q + r) % n], qsim.PX)


# name -> (parameters per layer, layer)
TEMPLATE = {
    'IQPAnsatz': (lambda n: n - 1, layer_iqp),
    'Sim4Ansatz': (lambda n: 3 * n - 1, layer_sim4),
    'Sim9Ansatz': (lambda n: n, ladder('Z')),
    'Sim9CxAnsatz': (lambda n: n, ladder('X')),
    'Sim14Ansatz': (lambda n: 4 * n, layer_sim14),
    'Sim15Ansatz': (lambda n: 2 * n, layer_sim15),
    'StronglyEntanglingAnsatz': (lambda n: 3 * n, layer_strong),
}


class Setup:
    """An ansatz with random options and its reference."""

    def __init__(self, c, width=3, discard=None, plain=False, wide=False):
        self.c = c
        self.cls = c.choice(CLASSES)
        self.name = self.cls.__name__
        c.ev(self.name)
        self.obs = {}
        for n in 'nsp':
            self.obs[n] = c.choice([0, 1, 1, 1, 2, 2] if wide
                                   else [0, 1, 1, 1, 1, 2])
        if not sum(self.obs.values()):
            self.obs['n'] = 1
        self.layers = c.choice([0, 1, 1, 2, 3])
        kw = {'ob_map': {}, 'n_layers': self.layers}
        for n, k in self.obs.items():
            v = k
            if c.p(.2):
                c.ev('type_codomain')
                v = Q.qubit ** k
            kw['ob_map'][G.Ty(n)] = v
        if not self.layers:
            c.ev('zero_layers')
        if self.layers > 1:
            c.ev('many_layers')
        self.single = 3
        if c.p(.4):
            self.single = kw['n_single_qubit_params'] = c.int(0, 5)
        self.discard = c.p(.3) if discard is None else discard
        if self.discard:
            kw['discard'] = True
            c.ev('discard')
        self.anc = lambda name: 0
        if not plain and c.p(.4):
            kind = c.int(0, 2)
            if kind == 0:
                k = kw['n_ancillas'] = c.int(1, 2)
                self.anc = lambda name: k
                c.ev('ancilla')
            elif kind == 1:
                pick = set(c.rng.sample(VOCAB, 5) + ['f', 'Alice'])
                self.anc = lambda name: int(name in pick)
                kw['n_ancillas'] = lambda b: int(b.name in pick)
                c.ev('ancilla_function')
            else:
                self.later = kw  # filled in from the diagram's own boxes
                kw['n_ancillas'] = table = {}
                self.table = table
                self.anc = None
        self.rots = ['Rx', 'Rz']
        self.basis = np.eye(2)
        self.ranges = None
        if self.cls is StronglyEntanglingAnsatz:
            self.rots = ['Rz', 'Ry']
            if c.p(.4):
                kw['ranges'] = self.ranges = [
                    1 for _ in range(self.layers)]
        else:
            if c.p(.3):
                c.ev('rotations_option')
                self.rots = [c.choice(['Rx', 'Ry', 'Rz'])
                             for _ in range(c.int(1, 3))]
                kw['single_qubit_rotations'] = [getattr(Q, r)
                                                for r in self.rots]
            if c.p(.3):
                c.ev('basis')
                b, m = c.choice([(Q.H, qsim.FIXED['H']),
                                 (Q.Ry(.3), qsim.rotation('Ry', .3)),
                                 (Q.S >> Q.H, qsim.FIXED['H']
                                  @ qsim.FIXED['S'])])
                kw['postselection_basis'] = b.to_diagram()
                self.basis = m
        self.kw = kw

    def make(self):
        return self.cls(**self.kw)

    def prepare(self, diagram):
        """Choose per-box ancillas."""
        if self.anc is None:
            c = self.c
            self.table.clear()
            for b in base_boxes(diagram):
                if c.p(.5):
                    self.table[b] = 1
            if self.table:
                c.ev('ancilla_map')
            names = {box_key(b) for b in self.table}
            self.anc_of = lambda b: int(box_key(b) in names)
        else:
            self.anc_of = lambda b: self.anc(b.name)

    def qubits(self, seq):
        return sum(self.obs[n] for n, _ in seq)

    def n_params(self, box):
        n = max(self.qubits(flat(box.dom)), self.qubits(flat(box.cod)))
        n += self.anc_of(box)
        if n == 0:
            return 0
        if n == 1:
            return self.single
        return self.layers * TEMPLATE[self.name][0](n)

    def matrix(self, box, params):
        """[out, in] isometry or unitary on all qubits with ancillas; the
        numbers of input, output and dropped qubits."""
        dom, cod = (self.qubits(flat(t)) for t in (box.dom, box.cod))
        anc = self.anc_of(box)
        n = max(dom, cod) + anc
        c = self.c
        if n == 0:
            c.ev('zero_qubits')
            u = np.eye(1, dtype=complex)
        elif n == 1:
            c.ev('one_qubit')
            u = np.eye(2, dtype=complex)
            for i, t in enumerate(params):
                u = qsim.rotation(self.rots[i % len(self.rots)], t) @ u
        else:
            k, layer = TEMPLATE[self.name]
            if n > 2:
                c.ev(self.name + ':wide')
            k = k(n)
            u = np.eye(2 ** n, dtype=complex)
            extra = ({'ranges': self.ranges}
                     if self.cls is StronglyEntanglingAnsatz else {})
            if self.ranges:
                c.ev('ranges')
            for i in range(self.layers):
                for g in layer(n, i, self.layers, params[k * i:k * i + k],
                               **extra):
                    u = g @ u
            if self.layers and self.cls is IQPAnsatz:
                for q in range(n):
                    u = qsim.on(n, [q], qsim.FIXED['H']) @ u
        # added qubits come last
        u = u.reshape([2] * (2 * n))
        u = u[(Ellipsis,) + (0,) * (n - dom)] if n > dom else u
        drop = n - cod
        return u, n, dom, cod, drop

    def pure(self, box, params):
        u, n, dom, cod, drop = self.matrix(box, params)
        for i in range(cod, n):
            u = np.moveaxis(np.tensordot(self.basis, u, (1, i)), 0, i)
        u = u[(slice(None),) * cod + (0,) * drop]
        return u.transpose(list(range(cod, cod + dom)) + list(range(cod)))

    def mixed(self, box, params):
        """Axes: (ket, bra) of every input, then of every output."""
        u, n, dom, cod, drop = self.matrix(box, params)
        u = u.reshape(2 ** cod, 2 ** drop, 2 ** dom)
        ch = np.einsum('axb,cxd->bdac', u, u.conj())
        ch = ch.reshape([2] * (2 * dom + 2 * cod))
        order = []
        for start, k in ((0, dom), (2 * dom, cod)):
            for i in range(k):
                order += [start + i, start + k + i]
        return ch.transpose(order)


def base(b):
    if isinstance(b, G.Daggered):
        b = b.dagger()
    return b.rotate(-b.z) if b.z else b


def base_boxes(d):
    out = {}
    for b in d.boxes:
        if isinstance(b, (G.Cup, G.Cap, G.Swap, G.Spider)):
            continue
        b = base(b)
        out[box_key(b)] = b
    return list(out.values())


def diagram(c, small=False):
    kind = c.int(0, 3)
    if kind < 2:
        c.ev('sentence')
        return sentence_diagram(c, swaps=c.p(.4), max_words=4,
                                max_wires=7 if small else 9)
    d = rand_diagram(c, layers=c.int(1, 4), width=3 if small else 4,
                     dom_hi=2, box_kw={'hi': 2},
                     kinds=['box'] * 4 + ['swap', 'cap', 'cup', 'spider'])
    if c.p(.15):
        d = d.dagger()
    if c.p(.15):
        d = d.rotate(c.choice([1, -1]))
    return d


def observe(c, s, d):
    for b in d.boxes:
        if isinstance(b, G.Spider):
            c.ev('spider')
        elif isinstance(b, G.Swap):
            c.ev('swap')
        elif isinstance(b, G.Daggered):
            c.ev('daggered')
        elif isinstance(b, (G.Cup, G.Cap)):
            pass
        else:
            if b.z:
                c.ev('rotated')
            if b.dom:
                c.ev('box_with_domain')
            for n, z in flat(b.dom) + flat(b.cod):
                if s.obs[n] == 2:
                    c.ev('two_qubit_wire')
                    if z % 2:
                        c.ev('odd_two_qubit')


def well_typed(c, s, circ, d):
    c.check(isinstance(circ, Q.Diagram), 'category', type(circ))
    for got, seq, w in ((circ.dom, flat(d.dom), 'domain'),
                        (circ.cod, flat(d.cod), 'codomain')):
        c.eq([t.label for t in got], ['qubit'] * s.qubits(seq), w)
    cur = [t.label for t in circ.dom]
    for lay in circ.layers:
        left, right = ([t.label for t in x] for x in (lay.left, lay.right))
        c.eq(cur, left + [t.label for t in lay.box.dom] + right,
             'layer-boundary')
        cur = left + [t.label for t in lay.box.cod] + right
    c.eq(cur, [t.label for t in circ.cod], 'layer-boundary')
    mixing = [b for b in circ.boxes if isinstance(b, (Q.Measure, Q.Encode,
                                                      Q.Discard))]
    if not s.discard:
        c.check(not mixing and not circ.is_mixed, 'mixed-uninvited',
                lambda: mixing)


def numbered(c, syms, k, what):
    """Parameters are numbered from zero."""
    nums = {}
    for x in syms:
        m = re.fullmatch(r'(.*)_(\d+)', x.name, re.S)
        c.check(m is not None, 'parameter-name', x.name)
        c.check(x.scale == 1 and x.size == 1, 'parameter-symbol', repr(x))
        nums[int(m[2])] = x
    c.check(sorted(nums) == list(range(k)) and len(syms) == k,
            'parameter-count', lambda: f'{what}: {sorted(nums)}, not {k}')
    return [nums[i] for i in range(k)]


def values(seed, syms):
    return [value_of(seed, x.name) for x in syms]


def affordable(s, d, mixed):
    cur = s.qubits(flat(d.dom))
    most = cur
    for lay in d.layers:
        b = lay.box
        cur = s.qubits(flat(lay.left) + flat(lay.right))
        a, z = s.qubits(flat(b.dom)), s.qubits(flat(b.cod))
        extra = 0
        if not isinstance(b, (G.Cup, G.Cap, G.Swap, G.Spider)):
            if max(a, z) > (3 if mixed else 4):
                return False
            extra = s.anc_of(base(b))
        most = max(most, cur + a + z + extra)
    most += s.qubits(flat(d.dom))
    return most <= (7 if mixed else 12)


def evaluate(c, s, anz, d, mixed):
    """Native and reference values."""
    seed = c.int(0, 10 ** 6)
    wide = [b for b in d.boxes if isinstance(b, G.Spider)
            and s.qubits(flat(b.type)) != 1]
    if wide:
        # refused, or done right
        c.ev('wide_spider')
        try:
            anz(d)
        except NotImplementedError:
            return None
    if not affordable(s, d, mixed):
        c.skip('too big')
    circ = anz(d)
    well_typed(c, s, circ, d)
    seen = set()

    def box_array(b):
        syms = numbered(c, anz(b.to_diagram()).free_symbols, s.n_params(b),
                        repr(b))
        seen.update(syms)
        vals = values(seed, syms)
        return (s.mixed if mixed else s.pure)(b, vals)

    per = 4 if mixed else 2
    interp = AnsatzInterp({n: (per,) * k for n, k in s.obs.items()},
                          box_array)
    try:
        want = interp.decode(interp(d, limit=2 ** 16), flat(d.dom),
                             flat(d.cod))
    except TooBig:
        c.skip('too big')
    if mixed:
        m, k = s.qubits(flat(d.dom)), s.qubits(flat(d.cod))
        want = want.reshape([2] * (2 * (m + k)))
        order = []
        for start, w in ((0, m), (2 * m, k)):
            order += [start + 2 * i for i in range(w)]
            order += [start + 2 * i + 1 for i in range(w)]
        want = want.transpose(order)
    free = list(circ.free_symbols)
    c.check(len(set(free)) == len(free) and set(free) == seen,
            'diagram-parameters',
            lambda: f'{sorted(map(repr, free))} != '
                    f'{sorted(map(repr, seen))}')
    got = circ.lambdify(*free)(*values(seed, free))
    c.check(not got.free_symbols, 'symbols-left')
    got = np.asarray(got.eval(mixed=True) if mixed else got.eval())
    c.check(got.shape == want.shape, 'value-shape',
            lambda: f'{got.shape} != {want.shape}')
    c.check(close(got, want, 1e-6), 'value', lambda: f'{got} != {want}')
    return circ


def fam_pure(c):
    s = Setup(c, discard=False, wide=c.p(.5))
    d = diagram(c)
    s.prepare(d)
    c.note(f'{s.name} {s.kw} {d!r}')
    observe(c, s, d)
    anz = s.make()
    circ = evaluate(c, s, anz, d, False)
    if circ is None:
        return
    c.ev('postselect')
    c.sig(s.name, repr(sorted(map(repr, s.kw.items()))), key(d))
    if c.p(.3):
        c.ev('again')
        c.check(anz(d) == circ and repr(anz(d)) == repr(circ), 'repeatable')
        c.check(repr(s.make()(d)) == repr(circ), 'same-configuration')


def fam_mixed(c):
    s = Setup(c, discard=True)
    d = diagram(c, small=True)
    s.prepare(d)
    c.note(f'{s.name} {s.kw} {d!r}')
    observe(c, s, d)
    c.ev('mixed_value')
    evaluate(c, s, s.make(), d, True)
    c.sig(s.name, repr(sorted(map(repr, s.kw.items()))), key(d))


def fam_box(c):
    """One box of up to five qubits: its exact matrix and its norm."""
    s = Setup(c, discard=False, wide=True)
    b = c.choice([lambda: G.Word(c.choice(VOCAB), rand_ty(c, 1, 4)),
                  lambda: rand_box(c, dagger=False, rot=False)])()
    if s.cls is StronglyEntanglingAnsatz and c.p(.6):
        s.ranges = s.kw['ranges'] = [c.int(1, 4) for _ in range(s.layers)]
    d = b.to_diagram()
    s.prepare(d)
    n = max(s.qubits(flat(b.dom)), s.qubits(flat(b.cod))) + s.anc_of(b)
    if n > 5:
        c.skip('too wide')
    c.note(f'{s.name} {s.kw} {d!r}')
    anz = s.make()
    if s.ranges and n > 1 and max(s.ranges) >= n:
        c.ev('bad_ranges')
        c.raises(ValueError, lambda: anz(d), mechanism='range-too-large')
        return
    circ = evaluate(c, s, anz, d, False)
    if circ is None:
        return
    free = list(circ.free_symbols)
    arr = np.asarray(circ.lambdify(*free)(*values(7, free)).eval())
    m = arr.reshape(2 ** s.qubits(flat(b.dom)), -1)
    c.ev('norm')
    c.check(np.linalg.norm(m, 2) <= 1 + 1e-6, 'norm',
            lambda: np.linalg.norm(m, 2))
    c.sig(s.name, repr(sorted(map(repr, s.kw.items()))), key(d))


ODD = VOCAB + ['a:b', 'a,b', 'a b', 'x_0', 'x', 'x_1', '_', 'x__n', '\\:',
               ':', 'n', 'x_', "it's", '0', 'x_s_0', '(x)', 'λ']


def fam_sharing(c):
    """Who shares parameters with whom."""
    s = Setup(c, wide=True, plain=c.p(.7))
    words = []
    for _ in range(c.int(2, 8)):
        if words and c.p(.4):
            w = c.choice(words)
            t = w.cod if c.p(.5) else rand_ty(c, 1, 3)
            if c.p(.4):     # one name and codomain, two domains
                words.append(G.Box(w.name, rand_ty(c, 1, 2), w.cod))
                c.ev('two_domains')
            else:
                words.append(G.Word(w.name, t))
        elif c.p(.2):
            words.append(G.Box(c.choice(ODD), rand_ty(c, 1, 2),
                               rand_ty(c, 0, 2)))
        else:
            words.append(G.Word(c.choice(ODD), rand_ty(c, 1, 3)))
    d = G.Id().tensor(*[w.to_diagram() for w in words])
    s.prepare(d)
    words = [w for w in words if max(s.qubits(flat(w.dom)),
                                     s.qubits(flat(w.cod))) < 6]
    c.note(f'{s.name} {s.kw} {words!r}')
    c.ev('odd_names')
    anz, other = s.make(), s.make()
    per = []
    for w in words:
        syms = numbered(c, anz(w.to_diagram()).free_symbols, s.n_params(w),
                        repr(w))
        per.append([x.name for x in syms])
        c.sig(s.name, repr(w), len(syms))
    for i, a in enumerate(words):
        for j in range(i):
            b = words[j]
            if (a.name, flat(a.dom), flat(a.cod)) == \
                    (b.name, flat(b.dom), flat(b.cod)):
                c.ev('shared_word')
                c.eq(per[i], per[j], 'same-word-not-shared')
            else:
                c.ev('same_word_two_types' if a.name == b.name
                     else 'distinct_words')
                c.check(not set(per[i]) & set(per[j]), 'shared-by-mistake',
                        lambda: f'{a!r} {b!r}')
        z = c.choice([1, -1, 2])
        again = other(a.rotate(z).to_diagram())
        c.eq(sorted(x.name for x in again.free_symbols), sorted(per[i]),
             'rotated-word')
        again = other(a.to_diagram().dagger())
        c.eq(sorted(x.unscaled.name for x in again.free_symbols),
             sorted(per[i]), 'daggered-word')
    # adjoints use as many qubits
    t = rand_ty(c, 1, 3)
    n = anz.ob_size(t)
    c.eq(n, s.qubits(flat(t)), 'type-size')
    c.eq([anz.ob_size(t.l), anz.ob_size(t.r), anz.ob_size(t.r.r)], [n] * 3,
         'adjoint-size')


def fam_refuse(c):
    s = Setup(c)
    if c.p(.5):
        c.ev('bad_ranges')
        L = c.int(1, 3)
        c.note(f'ranges {L}')
        c.raises(ValueError, lambda: StronglyEntanglingAnsatz(
            {G.Ty('n'): 1}, L, ranges=[1] * c.choice([0, L - 1, L + 1, 9])),
            mechanism='ranges-length')
    f = rand_frame(c, 1)
    d = f.to_diagram()
    s.anc = s.anc or (lambda n: 0)
    c.note(f'{s.name} {d!r}')
    c.ev('frames_refused')
    c.raises(RuntimeError, lambda: s.make()(d), mechanism='frames')


FAMILIES = [
    Family('pure', fam_pure, 250),
    Family('mixed', fam_mixed, 100),
    Family('box', fam_box, 250),
    Family('sharing', fam_sharing, 100),
    Family('refuse', fam_refuse, 20),
]
