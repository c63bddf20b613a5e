"""P03 diagram operations denote what they say: results of random programs of
diagram-building operations are evaluated by an independent tensor semantics
and compared with the promised combination of the operands' tensors."""
import numpy as np

from lambeq.backend import grammar as G

from vf.core import Family
from vf.gen import flat, mk, rand_seq, rand_box, rand_diagram, rand_atom
from vf.sem import Interp, TooBig, key
from vf import progs

RULE = ('distinct (operation, result layers) pairs whose tensor was compared '
        'and has more than one entry')
REQUIRED = ['compared'] + ['op:' + x for x in (
    'then', 'then3', 'tensor', 'tensor-n', 'tensor-ty', 'ty-tensor', 'box',
    'dagger', 'rotate', 'transpose', 'curry-left', 'curry-right', 'permuted',
    'permutation', 'swap', 'cap', 'cup', 'spider', 'then_at', 'fa', 'ba',
    'fc', 'bc', 'fx', 'bx')]
ASSUMPTIONS = ['dimensions 2 and 3 and random complex tensors distinguish '
               'different wirings (they do with probability one)']


def program(c):
    I = Interp(c.int(0, 10 ** 6))
    pool = progs.start_pool(c, layers=3)
    for _ in range(12):
        label, f, dom, cod, sem = progs.step(c, pool)
        d = f().to_diagram()
        c.note(f'{label}: {dom} -> {cod}: {d!r}')
        try:
            want, got = sem(I), I(d)
        except TooBig:
            c.ev('too_big')
            continue
        c.ev('compared')
        c.ev('op:' + label)
        s = np.max(np.abs(want)) + 1e-12 if want.size else 1
        c.close(got / s, want / s, f'meaning:{label}', label, atol=1e-7)
        if got.size > 1:
            c.sig(label, key(d))
        progs.add(c, pool, d)
    c.sample(repr(pool[-1])[:300])


def single(c):
    """Every operation in turn (no operation is left to chance)."""
    I = Interp(c.int(0, 10 ** 6))
    for op in progs.OPS:
        pool = progs.start_pool(c, 2, layers=2)
        r = op(c, pool)
        if r is None:
            continue
        label, f, dom, cod, sem = r
        if len(dom) + len(cod) > 2 * progs.W + 2:
            continue
        d = f().to_diagram()
        c.note(f'{label}: {dom} -> {cod}: {d!r}')
        try:
            want, got = sem(I), I(d)
        except TooBig:
            c.ev('too_big')
            continue
        c.ev('compared')
        c.ev('op:' + label)
        s = np.max(np.abs(want)) + 1e-12 if want.size else 1
        c.close(got / s, want / s, f'meaning:{label}', label, atol=1e-7)
        c.sig(label, key(d))


def yanking(c):
    """Snake equations, transposition inverse, sliding of boxes."""
    I = Interp(c.int(0, 10 ** 6))
    d = rand_diagram(c, layers=2, width=3, dom_hi=2)
    c.note(repr(d))
    A, B = mk(flat(d.dom)), mk(flat(d.cod))
    Id = G.Diagram.id

    def same(x, y, m):
        try:
            a, b = I(x), I(y)
        except TooBig:
            return
        c.ev('compared')
        c.sig(m, key(x))
        s = np.max(np.abs(b)) + 1e-12
        c.close(a / s, b / s, m, m, atol=1e-7)
    same(d.transpose(left=True).transpose(left=False), d, 'transpose-inverse')
    same(d.transpose(left=False).transpose(left=True), d, 'transpose-inverse')
    t = mk(rand_seq(c, 1, 2))
    same(G.Cap(t, t.l) @ t >> t @ G.Cup(t.l, t), Id(t), 'snake-left')
    same(t @ G.Cap(t.r, t) >> G.Cup(t, t.r) @ t, Id(t), 'snake-right')
    # bending a box around a cup/cap
    tl = d.transpose(left=True)
    same(d @ Id(B.r) >> G.Cup(B, B.r) if len(B) else d @ Id(),
         Id(A) @ d.transpose(left=False).to_diagram() >> G.Cup(A, A.r)
         if len(B) else d @ Id(), 'slide-cup')
    same(Id(B.l) @ d >> G.Cup(B.l, B), tl @ Id(A) >> G.Cup(A.l, A),
         'slide-cup-left')
    u = d.curry(1, left=True) if len(A) else None
    if u is not None:
        x = A[-1:]
        same(Id(A[:-1]) @ Id(x) >> u @ Id(x) >> Id(B) @ G.Cup(x.l, x), d,
             'uncurry-left')
        u = d.curry(1, left=False)
        x = A[:1]
        same(Id(x) @ u >> G.Cup(x, x.r) @ Id(B), d, 'uncurry-right')
    # swaps are natural
    e = rand_diagram(c, layers=1, width=2, dom_hi=1)
    C, D = mk(flat(e.dom)), mk(flat(e.cod))
    same(d @ e >> G.Diagram.swap(B, D), G.Diagram.swap(A, C) >> e @ d,
         'swap-natural')
    # interchange
    same(d @ Id(C) >> Id(B) @ e, Id(A) @ e >> d @ Id(D), 'interchange')
    # spider fusion
    a = rand_atom(c)
    i, j, k, m = c.int(0, 2), c.int(1, 2), c.int(0, 2), c.int(0, 1)
    same(G.Spider(a, i, j).to_diagram() >> G.Spider(a, j, k),
         G.Spider(a, i, k).to_diagram(), 'spider-fusion')
    p, q = list(range(len(B))), list(range(len(B)))
    c.rng.shuffle(p)
    c.rng.shuffle(q)
    same(d.permuted(p).permuted(q), d.permuted([p[x] for x in q]),
         'permutation-compose')
    same(G.Diagram.permutation(B, p).dagger(),
         G.Diagram.permutation(mk([flat(B)[x] for x in p]),
                               [p.index(x) for x in range(len(p))]),
         'permutation-dagger')


FAMILIES = [Family('program', program, 350), Family('single', single, 250),
            Family('yanking', yanking, 350)]
