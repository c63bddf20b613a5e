"""P02 every diagram built is well typed, ill-typed requests are refused,
operands are left alone, ==/hash/iteration agree with the layers."""
from lambeq.backend import grammar as G

from vf.core import Family
from vf.gen import (flat, mk, rand_seq, rand_ty, rand_atom, rand_box,
                    rand_diagram, sentence_diagram, pregroup_sentence,
                    reduce_planar)
from vf.sem import key, any_key, typing_error, rotate_seq
from vf import progs

RULE = ('distinct results of diagram-building programs by their layers '
        '(identities excluded), plus distinct ill-typed requests')
REQUIRED = ['built', 'refused', 'slice', 'pregroup', 'eq_pairs',
            'constructed']
CONSTRUCTED = [0]


def worker_setup():
    # constructor hook: counts every diagram object the workload constructs
    orig = G.Diagram.__init__

    def init(self, *a, **k):
        CONSTRUCTED[0] += 1
        orig(self, *a, **k)
    G.Diagram.__init__ = init


def worker_events():
    return {'constructed': CONSTRUCTED[0]}


def good(c, d, dom, cod, label):
    e = typing_error(d)
    c.check(e is None, f'ill-typed:{label}', lambda: f'{label}: {e}\n{d!r}')
    c.eq(flat(d.dom), dom, f'dom:{label}', f'domain promised by {label}')
    c.eq(flat(d.cod), cod, f'cod:{label}', f'codomain promised by {label}')


def program(c):
    pool = progs.start_pool(c)
    for _ in range(14):
        before = [key(d) for d in pool]
        label, f, dom, cod, _ = progs.step(c, pool)
        c.note(f'{label}: {dom} -> {cod}')
        r = f()
        d = r.to_diagram()
        c.ev('built')
        c.ev('op:' + label)
        good(c, d, dom, cod, label)
        c.eq([key(x) for x in pool], before, f'operand-altered:{label}',
             label)
        if d.layers:
            c.sig(key(d))
        progs.add(c, pool, d)
    c.sample(repr(pool[-1]))
    for i in range(len(pool)):
        for j in range(i + 1):
            c.ev('eq_pairs')
            same = key(pool[i]) == key(pool[j])
            c.eq(pool[i] == pool[j], same, 'equality',
                 f'{pool[i]!r} vs {pool[j]!r}')
            if same:
                c.eq(hash(pool[i]), hash(pool[j]), 'hash')


def equality(c):
    """Near-duplicates: one attribute of one layer changed."""
    d = rand_diagram(c, layers=4)
    if not d.layers:
        c.skip('identity')
    import copy
    e = G.Diagram(dom=d.dom, cod=d.cod, layers=[
        G.Layer(left=mk(flat(l.left)), box=copy.deepcopy(l.box),
                right=mk(flat(l.right))) for l in d.layers])
    c.eq(d, e, 'equality', 'rebuilt diagram')
    c.eq(hash(d), hash(e), 'hash', 'rebuilt diagram')
    k = c.int(0, len(d.layers) - 1)
    lay = d.layers[k]
    if type(lay.box) not in (G.Box, G.Word):
        c.skip('structural')
    b = lay.box
    c.ev('eq_pairs')
    name = b.name + c.choice(['x', "'", '†'])
    nb = (G.Box(name, b.dom, b.cod, b.z) if type(b) is G.Box
          else G.Word(name, b.cod, b.z))
    for alt in (nb, b.rotate(2), b.rotate(-4)):
        if any_key(alt) == any_key(b):
            continue
        f = G.Diagram(dom=d.dom, cod=d.cod, layers=[
            l if i != k else G.Layer(left=l.left, box=alt, right=l.right)
            for i, l in enumerate(d.layers)])
        c.check(d != f, 'equality', f'{d!r} == {f!r}')
        c.check(b != alt, 'box-equality', f'{b!r} == {alt!r}')
    c.sig(key(d), k)


def slices(c):
    d = rand_diagram(c, layers=6)
    n = len(d.layers)
    c.note(repr(d))
    c.eq(len(d), n, 'len')
    c.eq([any_key(l) for l in d], [any_key(l) for l in d.layers], 'iter')
    c.eq([any_key(b) for b in d.boxes], [any_key(l.box) for l in d.layers],
         'boxes')
    c.eq(d.offsets, [len(flat(l.left)) for l in d.layers], 'offsets')
    c.eq(d.is_id, n == 0, 'is_id')
    bounds = [flat(d.dom)]
    for l in d.layers:
        bounds.append(flat(l.left) + flat(l.box.cod) + flat(l.right))
    for _ in range(8):
        i, j = c.int(-n - 2, n + 2), c.int(-n - 2, n + 2)
        i, j = c.choice([i, None]), c.choice([j, None])
        c.ev('slice')
        r = d[i:j]
        lo, hi, _ = slice(i, j).indices(n)
        want = d.layers[i:j]
        e = typing_error(r)
        c.check(e is None, 'slice-ill-typed', lambda: f'[{i}:{j}]: {e}')
        c.eq([any_key(l) for l in r.layers], [any_key(l) for l in want],
             'slice-layers', f'[{i}:{j}]')
        if want:
            c.eq((flat(r.dom), flat(r.cod)), (bounds[lo], bounds[hi]),
                 'slice-type', f'[{i}:{j}]')
        elif 0 <= lo == hi:
            c.eq(flat(r.dom), bounds[lo], 'empty-slice-type', f'[{i}:{j}]')
        # reversed slices are daggers of the range they cover
        st = slice(i, j, -1)
        idx = list(range(n))[st]
        r = d[st]
        e = typing_error(r)
        c.check(e is None, 'reversed-slice-ill-typed',
                lambda: f'[{i}:{j}:-1] of {n} layers: {e}')
        c.eq([len(flat(l.left)) for l in r.layers],
             [len(flat(d.layers[k].left)) for k in idx],
             'reversed-slice-layers', f'[{i}:{j}:-1]')
    for i in range(-n, n):
        r = d[i]
        c.eq([any_key(l) for l in r.layers], [any_key(d.layers[i])], 'index')
        c.check(typing_error(r) is None, 'index-ill-typed', i)
    for i in (n, -n - 1, n + 3):
        c.ev('refused')
        c.raises(IndexError, lambda: d[i], 'refuse-index', f'[{i}]')
    c.raises(IndexError, lambda: d[::2], 'refuse-step', '[::2]')
    k = c.int(0, n)
    c.eq(key(d[:k] >> d[k:]), key(d), 'slice-recompose', k)
    c.sig('slice', key(d))


def illtyped(c):
    pool = progs.start_pool(c, 4)
    a, b = c.choice(pool), c.choice(pool)
    kind = c.choice(['then', 'then', 'cup', 'cap', 'perm', 'swapcat',
                     'spider', 'then-chain', 'pregroup'])
    c.note(kind)
    if kind == 'then':
        if flat(a.cod) == flat(b.dom):
            c.skip('composable')
        c.ev('refused')
        c.raises(Exception, lambda: a >> b, 'compose-accepted',
                 f'{a.cod} then {b.dom}')
        c.raises(Exception, lambda: a.then(b), 'compose-accepted',
                 f'{a.cod} then {b.dom}')
    elif kind == 'then-chain':
        mid = rand_diagram(c, dom=mk(flat(a.cod)), layers=2)
        bad = rand_diagram(c, layers=2)
        if flat(bad.dom) == flat(mid.cod):
            c.skip('composable')
        c.ev('refused')
        c.raises(Exception, lambda: a.then(mid, bad), 'compose-accepted',
                 'third diagram does not compose')
    elif kind in ('cup', 'cap'):
        s = rand_seq(c, 1, 3)
        t = list(rotate_seq(s, 1 if kind == 'cup' else -1))
        k = c.int(0, len(t) - 1)
        how = c.int(0, 4)
        if how == 0:
            t[k] = (t[k][0] + 'x', t[k][1])
        elif how == 1:
            t[k] = (t[k][0], t[k][1] + c.choice([-2, -1, 1, 2]))
        elif how == 2:
            t = t + [('n', 0)]
        elif how == 3:
            t = t[::-1]
        else:
            t = t[:-1]
        if tuple(t) == rotate_seq(s, 1 if kind == 'cup' else -1):
            c.skip('adjoint')
        c.ev('refused')
        cls = G.Cup if kind == 'cup' else G.Cap
        c.raises(Exception, lambda: cls(mk(s), mk(t)), f'{kind}-accepted',
                 f'{kind} of {s} and {t}')
        c.raises(Exception,
                 lambda: getattr(G.Diagram, kind + 's')(mk(s), mk(t)),
                 f'{kind}-accepted', f'{kind} of {s} and {t}')
        c.sig(kind, s, t)
    elif kind == 'perm':
        n = c.int(1, 5)
        dom = rand_ty(c, n, n)
        p = list(range(n))
        c.rng.shuffle(p)
        how = c.int(0, 3)
        if how == 0:
            p[c.int(0, n - 1)] = c.choice([n, -1, n + 2])
        elif how == 1:
            p.append(c.choice([n, 0]))
        elif how == 2:
            p.pop()
        else:
            if n == 1:
                c.skip('n=1')
            i, j = c.rng.sample(range(n), 2)
            p[i] = p[j]
        c.ev('refused')
        c.raises(ValueError, lambda: G.Diagram.permutation(dom, p),
                 'perm-accepted', f'{p} on {n} wires')
        d = rand_diagram(c, layers=2, dom=dom)
        if len(flat(d.cod)) == n:
            c.raises(ValueError, lambda: d.permuted(p), 'perm-accepted',
                     f'{p}')
        c.sig('perm', p, n)
    elif kind == 'swapcat':
        from lambeq.backend import tensor as T
        t = T.Box('t', T.Dim(2), T.Dim(2), [[1, 0], [0, 1]])
        c.ev('refused')
        for f in (lambda: a @ t, lambda: a >> t, lambda: t @ a,
                  lambda: t >> a):
            c.raises(Exception, f, 'cross-category-accepted',
                     'grammar with tensor')
    elif kind == 'spider':
        c.ev('refused')
        for x in (None, 'n', 3):
            c.raises(Exception, lambda: G.Spider(x, 1, 1), 'spider-accepted',
                     f'spider of {x!r}')
    else:
        words, wires = pregroup_sentence(c)
        n = len(wires)
        if n < 2:
            c.skip('short')
        i, j = c.rng.sample(range(n), 2)
        (x, p), (y, q) = wires[i], wires[j]
        if x == y and q - p == 1 and j == i + 1:
            c.skip('cuppable')
        c.ev('refused')
        c.raises(Exception, lambda: G.Diagram.create_pregroup_diagram(
            words, [(G.Cup, i, j)]) if not (x == y and q - p == 1) else
            1 / 0, 'pregroup-accepted', f'cup {i},{j} of {wires}')
        c.raises(Exception, lambda: G.Diagram.create_pregroup_diagram(
            words, [(G.Spider, 0, 1)]), 'pregroup-accepted', 'spider')


def pregroup(c):
    """create_pregroup_diagram against a direct construction."""
    words, wires = pregroup_sentence(c)
    idx = list(range(len(wires)))
    cur = list(wires)
    morph = []
    expect = []
    while True:
        cand = [j for j in range(len(cur) - 1) if cur[j][0] == cur[j + 1][0]
                and cur[j + 1][1] - cur[j][1] == 1]
        if not cand:
            break
        j = c.choice(cand)
        morph.append((G.Cup, idx[j], idx[j + 1]))
        expect.append(j)
        del cur[j:j + 2], idx[j:j + 2]
    nswap = 0
    if len(cur) == 0 and False:
        pass
    c.note([str(w.cod) for w in words])
    c.note([(m[1], m[2]) for m in morph])
    before = [any_key(w) for w in words]
    d = G.Diagram.create_pregroup_diagram(words, morph)
    c.ev('pregroup')
    good(c, d, (), tuple(cur), 'create_pregroup_diagram')
    c.eq([any_key(w) for w in words], before, 'operand-altered:pregroup')
    c.eq([any_key(b) for b in d.boxes[:len(words)]], before,
         'pregroup-words')
    c.eq(d.offsets[len(words):], expect, 'pregroup-offsets',
         'cup positions')
    c.check(d.is_pregroup, 'is_pregroup', repr(d))
    c.sig('pg', [flat(w.cod) for w in words], expect)
    # swaps before any cup: positions are those of the words' wires
    if len(wires) >= 2:
        i = c.int(0, len(wires) - 2)
        d = G.Diagram.create_pregroup_diagram(words, [(G.Swap, i, i + 1)])
        w = list(wires)
        w[i], w[i + 1] = w[i + 1], w[i]
        good(c, d, (), tuple(w), 'create_pregroup_diagram-swap')


def is_pregroup(c):
    d = sentence_diagram(c, swaps=True) if c.p(.6) else \
        rand_diagram(c, layers=5, dom_hi=1)
    if c.p(.3):
        d = d.dagger() if c.p(.5) else d.rotate(c.choice([-1, 1]))
    seen_non_word = False
    want = not flat(d.dom)
    for l in d.layers:
        if isinstance(l.box, G.Word) and not seen_non_word:
            want = want and not flat(l.right)
        else:
            seen_non_word = True
            want = want and isinstance(l.box, (G.Cup, G.Swap))
    c.eq(d.is_pregroup, want, 'is_pregroup', repr(d))
    c.ev('pregroup')
    c.sig('ip', key(d))


def box_ops(c):
    b = rand_box(c, hi=3)
    c.note(repr(b))
    z = c.int(-4, 4)
    good(c, b.to_diagram(), flat(b.dom), flat(b.cod), 'to_diagram')
    r = b.rotate(z)
    c.eq(flat(r.dom), rotate_seq(flat(b.dom), z), 'box-rotate-dom')
    c.eq(flat(r.cod), rotate_seq(flat(b.cod), z), 'box-rotate-cod')
    c.eq(any_key(r.rotate(-z)), any_key(b), 'box-rotate-inverse', z)
    c.eq(r.rotate(-z), b, 'box-rotate-inverse', z)
    c.eq(type(r), type(b), 'box-rotate-class')
    c.eq(b.l.r, b, 'box-lr')
    c.eq(b.r.l, b, 'box-rl')
    dg = b.dagger()
    c.eq((flat(dg.dom), flat(dg.cod)), (flat(b.cod), flat(b.dom)),
         'box-dagger-type')
    c.eq(any_key(dg.dagger()), any_key(b), 'box-dagger-involution')
    c.eq(any_key(dg.rotate(z)), any_key(b.rotate(z).dagger()),
         'box-dagger-rotate')
    c.eq([x.z for x in (r, dg, dg.rotate(z), r.dagger())],
         [b.z + z, b.z, b.z + z, b.z + z], 'box-winding')
    u = r.unwind()
    c.eq(u.z, 0, 'unwind')
    c.ev('built')
    s = c.choice([lambda: G.Cap(*(lambda a: (a, a.l))(rand_atom(c))),
                  lambda: G.Cup(*(lambda a: (a, a.r))(rand_atom(c))),
                  lambda: G.Swap(rand_atom(c), rand_atom(c)),
                  lambda: G.Spider(rand_atom(c), c.int(0, 3), c.int(0, 3)),
                  ])()
    k = any_key(s)
    r = s.rotate(z)
    good(c, r.to_diagram(), rotate_seq(flat(s.dom), z),
         rotate_seq(flat(s.cod), z), 'structural-rotate')
    c.eq(any_key(r.rotate(-z)), k, 'structural-rotate-inverse', f'{s!r} {z}')
    dg = s.dagger()
    good(c, dg.to_diagram(), flat(s.cod), flat(s.dom), 'structural-dagger')
    c.eq(any_key(dg.dagger()), k, 'structural-dagger-involution')
    c.eq(any_key(dg.rotate(z)), any_key(s.rotate(z).dagger()),
         'structural-dagger-rotate')
    c.sig('box', any_key(b), k, z)


def sums(c):
    """Documented n-ary forms agree with the binary ones."""
    pool = progs.start_pool(c, 3, 3)
    a, b, d = pool
    c.eq(key(a.tensor(b, d)), key((a @ b) @ d), 'nary-tensor')
    c.eq(key((a @ b) @ d), key(a @ (b @ d)), 'tensor-assoc')
    x = rand_diagram(c, dom=mk(flat(a.cod)), layers=2)
    y = rand_diagram(c, dom=mk(flat(x.cod)), layers=2)
    c.eq(key(a.then(x, y)), key((a >> x) >> y), 'nary-then')
    c.eq(key((a >> x) >> y), key(a >> (x >> y)), 'then-assoc')
    c.eq(key(a.then()), key(a), 'then-none')
    c.eq(key(a.tensor()), key(a), 'tensor-none')
    i = G.Diagram.id
    c.eq(key(i(a.dom) >> a), key(a), 'id-left')
    c.eq(key(a >> i(a.cod)), key(a), 'id-right')
    c.eq(key(i() @ a), key(a), 'unit-left')
    c.eq(key(a @ i()), key(a), 'unit-right')
    c.eq(key(a.dagger().dagger()), key(a), 'dagger-involution')
    c.eq(key((a >> x).dagger()), key(x.dagger() >> a.dagger()),
         'dagger-contravariant')
    c.eq(key(a.l.r), key(a), 'rotate-inverse')
    z, w = c.int(-3, 3), c.int(-3, 3)
    c.eq(key(a.rotate(z).rotate(w)), key(a.rotate(z + w)), 'rotate-compose')
    c.eq(key(a.rotate(z).dagger()), key(a.dagger().rotate(z)),
         'rotate-dagger')
    c.ev('built', 10)
    c.sig('laws', key(a), key(b))


FAMILIES = [
    Family('program', program, 700), Family('equality', equality, 400),
    Family('slices', slices, 700), Family('illtyped', illtyped, 1500),
    Family('pregroup', pregroup, 700), Family('is_pregroup', is_pregroup, 400),
    Family('box_ops', box_ops, 800), Family('sums', sums, 400),
]
