"""Diagram-building operations with their promised type and meaning.

Each op takes (c, pool) and returns (label, thunk, dom, cod, meaning) where
dom/cod are the promised flat types and meaning(I) the promised tensor under
interpretation I (axes dom then cod)."""
import numpy as np

from lambeq.backend import grammar as G
from vf.gen import flat, mk, rand_seq, rand_diagram, rand_box
from vf.sem import rotate_seq, key

W = 6     # wire budget


def nw(d):
    return len(flat(d.dom)) + len(flat(d.cod))


def _then(A, B, n):
    """A: dom+mid, B: mid+cod, n = len(mid)"""
    return np.tensordot(A, B, axes=(list(range(A.ndim - n, A.ndim)),
                                    list(range(n))))


def _tensor(A, da, B, db):
    k = A.ndim
    t = np.multiply.outer(A, B)
    return t.transpose(list(range(da)) + list(range(k, k + db))
                       + list(range(da, k)) + list(range(k + db, t.ndim)))


def delta(I, seq, order):
    """identity on seq followed by the wires permuted: out i = in order[i]"""
    sh = tuple(I.dim(n) for n, _ in seq)
    n = len(seq)
    size = int(np.prod(sh)) if sh else 1
    t = np.eye(size, dtype=complex).reshape(sh + sh)
    return t.transpose(list(range(n)) + [n + o for o in order])


def op_then(c, pool):
    a = c.choice(pool)
    cod = flat(a.cod)
    match = [d for d in pool if flat(d.dom) == cod]
    if match and c.p(.6):
        b = c.choice(match)
    else:
        b = rand_diagram(c, dom=mk(cod), layers=c.int(0, 3), width=W)
    third = None
    if c.p(.3):
        third = rand_diagram(c, dom=mk(flat(b.cod)), layers=2, width=W)
    n, m = len(cod), len(flat(b.cod))
    if third is None:
        f = c.choice([lambda: a >> b, lambda: a.then(b)])
        return ('then', f, flat(a.dom), flat(b.cod),
                lambda I: _then(I(a), I(b), n))
    return ('then3', lambda: a.then(b, third), flat(a.dom), flat(third.cod),
            lambda I: _then(_then(I(a), I(b), n), I(third), m))


def op_tensor(c, pool):
    a, b = c.choice(pool), c.choice(pool)
    if nw(a) + nw(b) > 2 * W:
        b = G.Diagram(dom=G.Ty(), cod=G.Ty(), layers=[])
    f = c.choice([lambda: a @ b, lambda: a.tensor(b)])
    return ('tensor', f, flat(a.dom) + flat(b.dom),
            flat(a.cod) + flat(b.cod),
            lambda I: _tensor(I(a), len(flat(a.dom)), I(b),
                              len(flat(b.dom))))


def op_tensor_n(c, pool):
    ds = [c.choice(pool) for _ in range(3)]
    while sum(map(nw, ds)) > 2 * W and len(ds) > 1:
        ds.pop()
    if len(ds) == 1:
        ds.append(G.Diagram(dom=G.Ty(), cod=G.Ty(), layers=[]))
    dom = sum((flat(d.dom) for d in ds), ())
    cod = sum((flat(d.cod) for d in ds), ())

    def sem(I):
        t, nd = I(ds[0]), len(flat(ds[0].dom))
        for d in ds[1:]:
            t = _tensor(t, nd, I(d), len(flat(d.dom)))
            nd += len(flat(d.dom))
        return t
    return ('tensor-n', lambda: ds[0].tensor(*ds[1:]), dom, cod, sem)


def op_tensor_ty(c, pool):
    a = c.choice(pool)
    s = tuple(rand_seq(c, 0, 2))
    t = mk(s)
    if c.p(.5):
        return ('tensor-ty', lambda: a @ t, flat(a.dom) + s, flat(a.cod) + s,
                lambda I: _tensor(I(a), len(flat(a.dom)),
                                  delta(I, s, range(len(s))), len(s)))
    return ('ty-tensor', lambda: t @ a, s + flat(a.dom), s + flat(a.cod),
            lambda I: _tensor(delta(I, s, range(len(s))), len(s), I(a),
                              len(flat(a.dom))))


def op_box(c, pool):
    b = rand_box(c, hi=2)
    f = c.choice([lambda: b.to_diagram(),
                  lambda: G.Diagram.id(b.dom) >> b,
                  lambda: b >> G.Diagram.id(b.cod),
                  lambda: b @ G.Ty()])
    return ('box', f, flat(b.dom), flat(b.cod), lambda I: I.box(b))


def op_dagger(c, pool):
    a = c.choice(pool)
    n = len(flat(a.dom))

    def sem(I):
        t = I(a)
        return t.transpose(list(range(n, t.ndim)) + list(range(n))).conj()
    f = c.choice([lambda: a.dagger(), lambda: a[::-1]])
    return ('dagger', f, flat(a.cod), flat(a.dom), sem)


def mirror(t, n, z):
    if z % 2 == 0:
        return t
    return t.transpose(list(reversed(range(n)))
                       + list(reversed(range(n, t.ndim)))).conj()


def op_rotate(c, pool):
    a = c.choice(pool)
    z = c.choice([-1, 1, 2, -2, 3, 0])
    n = len(flat(a.dom))
    f = {1: lambda: a.r, -1: lambda: a.l}.get(z, lambda: a.rotate(z))
    if c.p(.3):
        f = lambda: a.rotate(z)
    return (f'rotate', f, rotate_seq(flat(a.dom), z),
            rotate_seq(flat(a.cod), z), lambda I: mirror(I(a), n, z))


def op_transpose(c, pool):
    a = c.choice(pool)
    left = c.p(.5)
    z = -1 if left else 1
    n = len(flat(a.dom))

    def sem(I):
        t = I(a)
        return t.transpose(list(reversed(range(n, t.ndim)))
                           + list(reversed(range(n))))
    return (f'transpose', lambda: a.transpose(left=left),
            rotate_seq(flat(a.cod), z), rotate_seq(flat(a.dom), z), sem)


def op_curry(c, pool):
    a = c.choice(pool)
    dom, cod = flat(a.dom), flat(a.cod)
    k = len(dom)
    n = c.int(c.choice([0, min(1, k)]), k)
    if c.p(.5):
        def sem(I):
            t = I(a)
            return t.transpose(list(range(k - n)) + list(range(k, t.ndim))
                               + list(reversed(range(k - n, k))))
        f = (lambda: a.curry(n)) if c.p(.5) else \
            (lambda: a.curry(n, left=True))
        return ('curry-left', f, dom[:k - n],
                cod + rotate_seq(dom[k - n:], -1), sem)

    def sem(I):
        t = I(a)
        return t.transpose(list(range(n, k)) + list(reversed(range(n)))
                           + list(range(k, t.ndim)))
    return ('curry-right', lambda: a.curry(n, left=False), dom[n:],
            rotate_seq(dom[:n], 1) + cod, sem)


def op_permuted(c, pool):
    a = c.choice(pool)
    cod = flat(a.cod)
    perm = list(range(len(cod)))
    c.rng.shuffle(perm)
    k = len(flat(a.dom))
    if c.p(.5):
        return ('permuted', lambda: a.permuted(perm), flat(a.dom),
                tuple(cod[i] for i in perm),
                lambda I: I(a).transpose(list(range(k))
                                         + [k + i for i in perm]))
    return ('permutation', lambda: G.Diagram.permutation(mk(cod), perm), cod,
            tuple(cod[i] for i in perm), lambda I: delta(I, cod, perm))


def op_swap(c, pool):
    a, b = tuple(rand_seq(c, 0, 2)), tuple(rand_seq(c, 0, 2))
    f = c.choice([lambda: G.Diagram.swap(mk(a), mk(b)),
                  lambda: G.Swap(mk(a), mk(b))])
    n, m = len(a), len(b)
    return ('swap', f, a + b, b + a,
            lambda I: delta(I, a + b, list(range(n, n + m))
                            + list(range(n))))


def op_cap(c, pool):
    a = tuple(rand_seq(c, 0, 3))
    rev = c.p(.3) and len(a) == 1
    b = rotate_seq(a, 1 if rev else -1)
    if rev:
        f = lambda: G.Diagram.caps(mk(a), mk(b), is_reversed=True)
    else:
        f = c.choice([lambda: G.Cap(mk(a), mk(b)),
                      lambda: G.Diagram.caps(mk(a), mk(b)),
                      lambda: G.Cap.to_right(mk(a)),
                      lambda: G.Cap.to_left(mk(b))])
    n = len(a)

    def sem(I):
        t = delta(I, a, range(n))
        return t.transpose(list(range(n)) + list(reversed(range(n, 2 * n))))
    return ('cap', f, (), a + b, sem)


def op_cup(c, pool):
    a = tuple(rand_seq(c, 0, 3))
    rev = c.p(.3) and len(a) == 1
    b = rotate_seq(a, -1 if rev else 1)
    if rev:
        f = lambda: G.Diagram.cups(mk(a), mk(b), is_reversed=True)
    else:
        f = c.choice([lambda: G.Cup(mk(a), mk(b)),
                      lambda: G.Diagram.cups(mk(a), mk(b)),
                      lambda: G.Cup.to_right(mk(a)),
                      lambda: G.Cup.to_left(mk(b))])
    n = len(a)

    def sem(I):
        t = delta(I, a, range(n))
        return t.transpose(list(range(n)) + list(reversed(range(n, 2 * n))))
    return ('cup', f, a + b, (), sem)


def op_spider(c, pool):
    a = tuple(rand_seq(c, 1, 2))
    i, o = c.int(0, 3), c.int(0, 3)
    if len(a) * (i + o) > 8:
        i, o = 1, 2

    def sem(I):
        k = len(a)
        out = np.ones((), dtype=complex)
        d0 = 0
        # spider per atom, axes: in legs then out legs; then interleave
        per = []
        for n, _ in a:
            d = I.dim(n)
            t = np.zeros((d,) * (i + o), dtype=complex)
            if i + o == 0:
                t = np.array(complex(d))
            else:
                for x in range(d):
                    t[(x,) * (i + o)] = 1
            per.append(t)
        for t in per:
            out = np.multiply.outer(out, t)
        idx = lambda atom, leg: atom * (i + o) + leg
        order = [idx(at, leg) for leg in range(i) for at in range(k)] + \
                [idx(at, i + leg) for leg in range(o) for at in range(k)]
        return out.transpose(order)
    return ('spider', lambda: G.Spider(mk(a), i, o), a * i, a * o, sem)


def op_id(c, pool):
    s = tuple(rand_seq(c, 0, 4))
    f = c.choice([lambda: G.Diagram.id(mk(s)), lambda: G.Id(mk(s)),
                  lambda: mk(s).to_diagram()])
    return ('id', f, s, s, lambda I: delta(I, s, range(len(s))))


def op_then_at(c, pool):
    a = c.choice(pool)
    cod = flat(a.cod)
    n = c.int(0, min(2, len(cod)))
    i = c.int(0, len(cod) - n)
    b = rand_box(c, dom=mk(cod[i:i + n]), hi=2)
    k = len(flat(a.dom))

    def sem(I):
        t, B = I(a), I.box(b)
        m = B.ndim - n
        t = np.tensordot(t, B, axes=(list(range(k + i, k + i + n)),
                                     list(range(n))))
        e = t.ndim
        return t.transpose(list(range(k + i)) + list(range(e - m, e))
                           + list(range(k + i, e - m)))
    return ('then_at', lambda: a.then_at(b, i), flat(a.dom),
            cod[:i] + flat(b.cod) + cod[i + n:], sem)


def op_ccg_shapes(c, pool):
    """application/composition wirings offered as class methods."""
    L, M, R = (tuple(rand_seq(c, 1, 2)) for _ in range(3))
    which = c.choice(['fa', 'ba', 'fc', 'bc', 'fx', 'bx'])
    D = G.Diagram
    l, m, r = mk(L), mk(M), mk(R)
    ml, mr = rotate_seq(M, -1), rotate_seq(M, 1)
    rl, rr = rotate_seq(R, -1), rotate_seq(R, 1)
    ll, lr = rotate_seq(L, -1), rotate_seq(L, 1)

    def wires(I, dom, keep_order, cupped):
        """delta diagram: cod = dom wires keep_order; cups = index pairs"""
        import string
        letters = string.ascii_letters
        n = len(dom)
        sh = [I.dim(x) for x, _ in dom]
        sub_in, ops, subs = list(letters[:n]), [], []
        for p, q in cupped:
            ops.append(np.eye(sh[p]))
            subs.append(letters[p] + letters[q])
        out = []
        nxt = n
        for i in keep_order:
            ops.append(np.eye(sh[i]))
            subs.append(letters[i] + letters[nxt])
            out.append(letters[nxt])
            nxt += 1
        return np.einsum(','.join(subs) + '->' + ''.join(sub_in + out),
                         *ops).astype(complex)

    a, b, d = len(L), len(M), len(R)
    rng = lambda s, n: list(range(s, s + n))
    if which == 'fa':
        dom, cod = L + rl + R, L
        keep = rng(0, a)
        cup = [(a + d - 1 - i, a + d + i) for i in range(d)]
        f = lambda: D.fa(l, r)
    elif which == 'ba':
        dom, cod = L + lr + R, R
        keep = rng(2 * a, d)
        cup = [(a - 1 - i, a + i) for i in range(a)]
        f = lambda: D.ba(l, r)
    elif which == 'fc':
        dom, cod = L + ml + M + rl, L + rl
        keep = rng(0, a) + rng(a + 2 * b, d)
        cup = [(a + b - 1 - i, a + b + i) for i in range(b)]
        f = lambda: D.fc(l, m, r)
    elif which == 'bc':
        dom, cod = lr + M + mr + R, lr + R
        keep = rng(0, a) + rng(a + 2 * b, d)
        cup = [(a + b - 1 - i, a + b + i) for i in range(b)]
        f = lambda: D.bc(l, m, r)
    elif which == 'fx':
        dom, cod = L + ml + rr + M, rr + L
        keep = rng(a + b, d) + rng(0, a)
        cup = [(a + b - 1 - i, a + b + d + i) for i in range(b)]
        f = lambda: D.fx(l, m, r)
    else:
        dom, cod = M + ll + mr + R, R + ll
        keep = rng(b + a + b, d) + rng(b, a)
        cup = [(b - 1 - i, b + a + i) for i in range(b)]
        f = lambda: D.bx(l, m, r)
    return (which, f, dom, cod, lambda I: wires(I, dom, keep, cup))


OPS = [op_then, op_tensor, op_tensor_n, op_tensor_ty, op_box, op_dagger,
       op_rotate, op_transpose, op_curry, op_permuted, op_swap, op_cap,
       op_cup, op_spider, op_id, op_then_at, op_ccg_shapes]
WEIGHTS = [4, 3, 1, 2, 3, 3, 3, 3, 3, 3, 1, 1, 1, 2, 1, 3, 1]


def step(c, pool):
    """One random operation."""
    for _ in range(20):
        op = c.rng.choices(OPS, WEIGHTS)[0]
        r = op(c, pool)
        if r is not None and len(r[2]) + len(r[3]) <= 2 * W:
            return r
    return op_id(c, pool)


def start_pool(c, n=3, layers=4):
    return [rand_diagram(c, layers=c.int(1, layers), width=W - 1, dom_hi=3)
            for _ in range(n)]


def add(c, pool, d, cap=8):
    pool.append(d)
    if len(pool) > cap:
        pool.pop(c.int(0, cap - 1))
