"""P18 Tensor ansätze give tensors of the dictated shape and keep the meaning
map."""
import numpy as np

from lambeq import MPSAnsatz, SpiderAnsatz, TensorAnsatz
from lambeq.backend import grammar as G
from lambeq.backend import tensor as T
from vf.anz import AnsatzInterp, TooBig, value_of
from vf.checks.p17 import base, base_boxes
from vf.core import Family
from vf.gen import flat, mk, rand_box, rand_diagram, rand_frame, rand_ty, \
    sentence_diagram, VOCAB
from vf.sem import key
from vf.tsim import close

RULE = 'distinct (ansatz, options, diagram) combinations evaluated'
REQUIRED = ['tensor', 'mps', 'spider', 'sentence', 'box_with_domain',
            'rotated', 'daggered', 'compound_dim', 'dim_one', 'odd_compound',
            'split', 'unsplit', 'uncurried_left', 'uncurried_right',
            'bond_rank', 'bond_saturated', 'independent', 'shared_word',
            'distinct_words', 'same_word_two_types', 'frames_refused',
            'two_domains',
            'bad_option', 'again', 'flow', 'scalar_box', 'spiders']


def worker_setup():
    import warnings
    warnings.simplefilter('ignore')


class Setup:
    def __init__(self, c, kind=None, simple=False):
        self.c = c
        self.kind = kind or c.choice(['tensor', 'mps', 'spider'])
        c.ev(self.kind)
        self.obs = {}
        for n in 'nsp':
            k = 1 if simple else c.choice([1, 1, 1, 1, 2])
            self.obs[n] = tuple(c.choice([2, 2, 3]) for _ in range(k))
            if c.p(.1):
                self.obs[n] = ()
                c.ev('dim_one')
            if len(self.obs[n]) > 1:
                c.ev('compound_dim')
        self.kw = {'ob_map': {G.Ty(n): T.Dim(*(v or (1,)))
                              for n, v in self.obs.items()}}
        self.left = True
        if self.kind == 'mps':
            self.bond = self.kw['bond_dim'] = c.int(1, 4)
            self.order = 3
            if c.p(.6):
                self.order = self.kw['max_order'] = c.int(3, 5)
        elif self.kind == 'spider':
            self.order = 2
            if c.p(.6):
                self.order = self.kw['max_order'] = c.int(2, 4)
        if self.kind != 'tensor' and c.p(.4):
            self.left = self.kw['uncurry_left'] = c.p(.3)
        self.cls = {'tensor': TensorAnsatz, 'mps': MPSAnsatz,
                    'spider': SpiderAnsatz}[self.kind]

    def make(self):
        return self.cls(**self.kw)

    def dims(self, seq):
        out = []
        for n, z in seq:
            out += self.obs[n][::-1] if z % 2 else self.obs[n]
        return tuple(out)

    def size(self, seq):
        return int(np.prod(self.dims(seq), dtype=int))


def diagram(c):
    kind = c.int(0, 3)
    if kind < 2:
        c.ev('sentence')
        return sentence_diagram(c, swaps=c.p(.4), max_words=4, max_wires=11)
    d = rand_diagram(c, layers=c.int(1, 4), width=5, dom_hi=2,
                     kinds=['box'] * 5 + ['swap', 'cap', 'cup', 'spider'])
    if c.p(.15):
        d = d.dagger()
    if c.p(.15):
        d = d.rotate(c.choice([1, -1]))
    return d


def observe(c, s, d):
    for b in d.boxes:
        if isinstance(b, G.Daggered):
            c.ev('daggered')
        elif isinstance(b, G.Spider):
            c.ev('spiders')
        elif not isinstance(b, (G.Cup, G.Cap, G.Swap)):
            if b.z:
                c.ev('rotated')
            if b.dom:
                c.ev('box_with_domain')
            for n, z in flat(b.dom) + flat(b.cod):
                if z % 2 and len(s.obs[n]) > 1:
                    c.ev('odd_compound')


def typed(c, s, t, d):
    c.check(isinstance(t, T.Diagram), 'category', type(t))
    c.eq(tuple(t.dom.dim), s.dims(flat(d.dom)), 'domain')
    c.eq(tuple(t.cod.dim), s.dims(flat(d.cod)), 'codomain')
    cur = tuple(t.dom.dim)
    for lay in t.layers:
        left, right = tuple(lay.left.dim), tuple(lay.right.dim)
        c.eq(cur, left + tuple(lay.box.dom.dim) + right, 'layer-boundary')
        cur = left + tuple(lay.box.cod.dim) + right
    c.eq(cur, tuple(t.cod.dim), 'layer-boundary')


def concrete(c, t, seed):
    free = list(t.free_symbols)
    c.check(len(set(free)) == len(free), 'symbol-repeated', free)
    out = t.lambdify(*free)(*[value_of(seed, x.name, x.size) for x in free])
    c.check(not out.free_symbols, 'symbols-left')
    return np.asarray(out.eval(dtype=np.float64))


def native_box(c, s, anz, b, seed, seen):
    """The value given to a box standing alone."""
    t = anz(b.to_diagram())
    seen.update(t.free_symbols)
    return concrete(c, t, seed)


def limits(c, s, d):
    for b in base_boxes(d):
        if s.size(flat(b.dom) + flat(b.cod)) > 3000:
            c.skip('too big')


def evaluate(c, s, anz, d):
    seed = c.int(0, 10 ** 6)
    limits(c, s, d)
    seen = set()
    interp = AnsatzInterp(
        s.obs, lambda b: native_box(c, s, anz, b, seed, seen))
    try:
        want = interp.decode(interp(d, limit=2 ** 18), flat(d.dom),
                             flat(d.cod))
    except TooBig:
        c.skip('too big')
    t = anz(d)
    typed(c, s, t, d)
    free = set(t.free_symbols)
    c.check(free == seen, 'diagram-parameters',
            lambda: f'{sorted(x.name for x in free)} != '
                    f'{sorted(x.name for x in seen)}')
    got = concrete(c, t, seed)
    c.check(got.shape == want.shape, 'value-shape',
            lambda: f'{got.shape} != {want.shape}')
    c.check(close(got, want, 1e-6), 'value',
            lambda: f'{np.abs(got - want).max()}')
    return t


def fam_diagram(c):
    s = Setup(c)
    d = diagram(c)
    c.note(f'{s.kind} {s.kw} {d!r}')
    observe(c, s, d)
    anz = s.make()
    t = evaluate(c, s, anz, d)
    c.sig(s.kind, repr(sorted(map(repr, s.kw.items()))), key(d))
    if c.p(.3):
        c.ev('again')
        c.check(anz(d) == t, 'repeatable')
        c.check(s.make()(d) == t, 'same-configuration')


def flow(s, box):
    """Even codomain and odd domain wires flow out."""
    dom = cod = 1
    for n, z in flat(box.cod):
        if z % 2:
            dom *= s.size([(n, z)])
        else:
            cod *= s.size([(n, z)])
    for n, z in flat(box.dom):
        if z % 2:
            cod *= s.size([(n, z)])
        else:
            dom *= s.size([(n, z)])
    return dom, cod


def a_box(c, hi=5):
    if c.p(.6):
        return G.Word(c.choice(VOCAB), rand_ty(c, 0, hi))
    return rand_box(c, dagger=False, rot=False, words=False, hi=3)


def fam_tensor_box(c):
    """One block of parameters of the right size, in wire order."""
    s = Setup(c, 'tensor')
    b = a_box(c)
    d = b.to_diagram()
    c.note(f'{s.kw} {d!r}')
    limits(c, s, d)
    t = s.make()(d)
    typed(c, s, t, d)
    free = list(t.free_symbols)
    c.check(len(free) == 1, 'one-block', free)
    x = free[0]
    seq = flat(b.dom) + flat(b.cod)
    if not seq:
        c.ev('scalar_box')
    c.eq(x.size, s.size(seq), 'block-size')
    c.ev('flow')
    c.eq((x.directed_dom, x.directed_cod), flow(s, b), 'flow')
    v = c.np.normal(size=x.size)
    got = np.asarray(t.lambdify(x)(v).eval(dtype=np.float64))
    c.check(close(got, v.reshape(s.dims(seq)), 1e-6), 'block-layout')
    c.sig('box', repr(s.kw), key(d))


def laid_out(s, b, arr):
    """Axes of the word with its domain bent to one side."""
    k = sum(len(s.obs[n]) for n, _ in flat(b.dom))
    order = list(range(k))[::-1]
    rest = list(range(k, arr.ndim))
    dims = [len(s.obs[n]) for n, _ in flat(b.dom)][::-1]
    cod = [len(s.obs[n]) for n, _ in flat(b.cod)]
    if s.left:
        return arr.transpose(order + rest), dims + cod
    return arr.transpose(rest + order), cod + dims


def rank(m):
    if not m.size:
        return 0
    sv = np.linalg.svd(m, compute_uv=False)
    return int((sv > 1e-6 * max(sv[0], 1e-300)).sum()) if sv[0] else 0


def fam_split(c):
    """The pieces of a large box."""
    s = Setup(c, c.choice(['mps', 'spider']))
    b = a_box(c, 7)
    d = b.to_diagram()
    c.note(f'{s.kind} {s.kw} {d!r}')
    limits(c, s, d)
    anz = s.make()
    t = anz(d)
    typed(c, s, t, d)
    legs = len(b.dom) + len(b.cod)
    simple = all(len(v) <= 1 for v in s.obs.values())
    blocks = [x for x in t.boxes if not isinstance(
        x, (T.Cup, T.Cap, T.Swap, T.Spider))]
    for x in blocks:
        if simple:
            c.check(len(x.dom) + len(x.cod) <= s.order, 'order',
                    lambda: f'{x!r} {s.order}')
        syms = list(x.free_symbols)
        c.check(len(syms) == 1 and syms[0].size
                == int(np.prod(tuple(x.dom.dim) + tuple(x.cod.dim),
                               dtype=int)), 'piece-size', repr(x))
    free = list(t.free_symbols)
    c.check(len(free) == len(blocks), 'piece-parameters', free)
    arr = concrete(c, t, 3)
    if legs <= s.order:
        c.ev('unsplit')
        c.check(len(blocks) == 1, 'split-needlessly')
        v = value_of(3, free[0].name, free[0].size)
        c.check(close(arr, v.reshape(arr.shape), 1e-6), 'block-layout')
        return
    c.ev('split')
    if b.dom:
        c.ev('uncurried_left' if s.left else 'uncurried_right')
    step = s.order - (2 if s.kind == 'mps' else 1)
    n_pieces = -(-legs // step) if s.kind == 'mps' else -(-(legs - 1) // step)
    c.eq(len(blocks), n_pieces, 'pieces')
    arr, per = laid_out(s, b, arr)
    at = np.concatenate([[0], np.cumsum(per)]).astype(int)
    if s.kind == 'mps':
        for cut in range(step, legs, step):
            left = int(np.prod(arr.shape[:at[cut]], dtype=int))
            m = arr.reshape(left, -1)
            want = min(s.bond, *m.shape)
            c.ev('bond_rank')
            if s.bond < min(m.shape):
                c.ev('bond_saturated')
            c.check(rank(m) == want, 'bond',
                    lambda: f'rank {rank(m)} at {cut}, not {want}')
    else:
        for p in range(step, legs - 1, step):
            left = int(np.prod(arr.shape[:at[p]], dtype=int))
            mid = int(np.prod(arr.shape[at[p]:at[p + 1]], dtype=int))
            m = arr.reshape(left, mid, -1)
            c.ev('independent')
            for i in range(mid):
                c.check(rank(m[:, i]) == 1, 'spider',
                        lambda: f'leg {p}: rank {rank(m[:, i])}')
    c.sig('split', s.kind, repr(s.kw), key(d))


def fam_sharing(c):
    s = Setup(c, simple=True)
    odd = VOCAB + ['x', 'x_0', 'x_1', 'x_0_0', 'a:b', 'a b', 'a,b', '_']
    words = []
    for _ in range(c.int(2, 6)):
        if words and c.p(.4):
            w = c.choice(words)
            t = w.cod if c.p(.5) else rand_ty(c, 1, 4)
            if c.p(.3):     # one name and codomain, two domains
                words.append(G.Box(w.name, rand_ty(c, 0, 2), w.cod))
                c.ev('two_domains')
            else:
                words.append(G.Word(w.name, t))
        else:
            words.append(G.Word(c.choice(odd), rand_ty(c, 1, 5)))
    c.note(f'{s.kind} {s.kw} {words!r}')
    anz, other = s.make(), s.make()
    per = [set(anz(w.to_diagram()).free_symbols) for w in words]
    for i, a in enumerate(words):
        c.sig(s.kind, repr(a), len(per[i]))
        for j in range(i):
            b = words[j]
            if (a.name, flat(a.dom), flat(a.cod)) == \
                    (b.name, flat(b.dom), flat(b.cod)):
                c.ev('shared_word')
                c.eq(per[i], per[j], 'same-word-not-shared')
            elif a.name == b.name:
                c.ev('same_word_two_types')
                # pieces of a split word carry their own types only
                if s.kind == 'tensor':
                    c.check(not per[i] & per[j], 'shared-across-types',
                            lambda: f'{a!r} {b!r}')
            else:
                c.ev('distinct_words')
                c.check(not per[i] & per[j], 'shared-by-mistake',
                        lambda: f'{a!r} {b!r}')
        z = c.choice([1, -1, 2])
        again = set(other(a.rotate(z).to_diagram()).free_symbols)
        c.eq(again, per[i], 'rotated-word')
        again = set(other(a.to_diagram().dagger()).free_symbols)
        c.eq(again, per[i], 'daggered-word')
    both = G.Id().tensor(*[w.to_diagram() for w in words])
    c.eq(set(anz(both).free_symbols), set().union(*per), 'together')
    # one value per name
    names = [x.name for x in set().union(*per)]
    c.check(len(set(names)) == len(names), 'name-at-two-sizes', names)


def fam_refuse(c):
    s = Setup(c)
    k = c.int(0, 3)
    c.sig(k, s.kind)
    if k == 0:
        c.ev('bad_option')
        m = c.int(-1, 2)
        c.note(f'MPS order {m}')
        c.raises(ValueError, lambda: MPSAnsatz(s.kw['ob_map'], 2,
                                               max_order=m),
                 mechanism='mps-order')
    elif k == 1:
        c.ev('bad_option')
        m = c.int(-1, 1)
        c.note(f'Spider order {m}')
        c.raises(ValueError, lambda: SpiderAnsatz(s.kw['ob_map'],
                                                  max_order=m),
                 mechanism='spider-order')
    elif k == 2:
        c.ev('bad_option')
        c.note('bond type given')
        c.raises(ValueError, lambda: MPSAnsatz(
            {**s.kw['ob_map'], MPSAnsatz.BOND_TYPE: T.Dim(2)}, 2),
            mechanism='bond-type')
    else:
        c.ev('frames_refused')
        d = rand_frame(c, 1).to_diagram()
        c.note(f'{s.kind} {d!r}')
        c.raises(RuntimeError, lambda: s.make()(d), mechanism='frames')


FAMILIES = [
    Family('diagram', fam_diagram, 300),
    Family('tensor_box', fam_tensor_box, 150),
    Family('split', fam_split, 300),
    Family('sharing', fam_sharing, 120),
    Family('refuse', fam_refuse, 40),
]
