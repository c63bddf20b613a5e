"""P06 normal forms: type, meaning, boxes kept; no snakes; idempotent."""
from collections import Counter

from lambeq.backend import grammar as G
from lambeq.backend.snake_removal import InterchangerError, interchange

from vf.core import Family
from vf.gen import (flat, mk, rand_ty, rand_atom, rand_box, rand_diagram,
                    sentence_diagram, layer, words_layers)
from vf.sem import key, box_key, typing_error, Interp, TooBig

RULE = ('distinct input diagrams (by layers) in which at least one rewriting '
        'step was due (a snake present, or two boxes to interchange)')
REQUIRED = ['snake_in_input', 'snakes_2plus', 'obstructed', 'meaning',
            'normal_form', 'remove_snakes', 'pregroup_normal_form',
            'idempotent', 'reversed_cap', 'left', 'disconnected',
            'interchanged_same_nf', 'moved', 'moved_far', 'move_refused',
            'move_out_of_range']


# ---- our own wire tracing ------------------------------------------------
def trace(d):
    """For every layer the ids of input and output wires; wires are
    identified by (layer, output port)."""
    cur = [('dom', i) for i in range(len(flat(d.dom)))]
    ins, outs, pos = [], [], []
    for k, lay in enumerate(d.layers):
        i, n = len(flat(lay.left)), len(flat(lay.box.dom))
        m = len(flat(lay.box.cod))
        ins.append(cur[i:i + n])
        new = [(k, j) for j in range(m)]
        outs.append(new)
        cur[i:i + n] = new
    return ins, outs, cur


def snakes(d):
    """(cap layer, cup layer) of every removable snake: a leg of a cap that
    is connected directly to the facing leg of a cup with the same outer
    type."""
    ins, outs, _ = trace(d)
    found = []
    for k, lay in enumerate(d.layers):
        if not isinstance(lay.box, G.Cup):
            continue
        cup = lay.box
        for port in (0, 1):
            src, p = ins[k][port]
            if src == 'dom' or not isinstance(d.layers[src].box, G.Cap):
                continue
            cap = d.layers[src].box
            if p == port:      # both left legs / both right legs: no snake
                continue
            # the remaining wire must keep its type
            if port == 1 and flat(cup.left) == flat(cap.right):
                found.append((src, k))
            if port == 0 and flat(cup.right) == flat(cap.left):
                found.append((src, k))
    return found


def connected(d):
    """Is the diagram, with its boundary as one node, connected?"""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x

    ins, outs, cur = trace(d)
    for k in range(len(d.layers)):
        find(k)
        for s, _ in ins[k]:
            par[find(k)] = find(s)
    for s, _ in cur:
        par[find(s)] = find('dom')
    find('dom')
    return len({find(x) for x in list(par)}) == 1


def boundary_connected(d):
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    ins, outs, cur = trace(d)
    for k in range(len(d.layers)):
        find(k)
        for s, p in ins[k]:
            par[find(k)] = find((s, p) if s == 'dom' else s)
    return len({find(x) for x in list(par)}) <= 1


def count(d, cls):
    return sum(isinstance(x.box, cls) for x in d.layers)


def content(d):
    return Counter(repr(box_key(x.box)) for x in d.layers
                   if not isinstance(x.box, (G.Cup, G.Cap)))


# ---- generators ----------------------------------------------------------
def cup(a, b):
    return G.Cup(a, b, is_reversed=flat(a)[0][1] > flat(b)[0][1])


def cap(a, b):
    return G.Cap(a, b, is_reversed=flat(a)[0][1] < flat(b)[0][1])


def insert_snake(c, d):
    """Put a snake on a random wire at a random height."""
    layers = list(d.layers)
    k = c.int(0, len(layers))
    cur = flat(d.dom)
    for lay in layers[:k]:
        cur = flat(lay.left) + flat(lay.box.cod) + flat(lay.right)
    if not cur:
        return d
    i = c.int(0, len(cur) - 1)
    n, z = cur[i]
    w = mk([cur[i]])
    adj = mk([(n, z + c.choice([1, -1]))])
    L, R = cur[:i], cur[i + 1:]
    if c.p(.5):      # left snake: id @ cap >> cup @ id
        new = [layer(mk(cur[:i + 1]), cap(adj, w), mk(R)),
               layer(mk(L), cup(w, adj), mk((cur[i],) + R))]
    else:
        new = [layer(mk(L), cap(w, adj), mk((cur[i],) + R)),
               layer(mk(L + (cur[i],)), cup(adj, w), mk(R))]
    return G.Diagram(dom=d.dom, cod=d.cod, layers=layers[:k] + new
                     + layers[k:])


def swap_layers(d, k, prefer_left=False):
    """Our own interchange of layers k and k+1; None if they are
    connected."""
    a, b = d.layers[k], d.layers[k + 1]
    la, lb = flat(a.left), flat(b.left)
    ra, rb = flat(a.right), flat(b.right)
    acod, adom = flat(a.box.cod), flat(a.box.dom)
    bdom, bcod = flat(b.box.dom), flat(b.box.cod)

    def a_left():
        if len(lb) >= len(la) + len(acod):
            mid = lb[len(la) + len(acod):]
            return (layer(mk(la + adom + mid), b.box, mk(rb)),
                    layer(mk(la), a.box, mk(mid + bcod + rb)))

    def a_right():
        if len(la) >= len(lb) + len(bdom):
            mid = la[len(lb) + len(bdom):]
            return (layer(mk(lb), b.box, mk(mid + adom + ra)),
                    layer(mk(lb + bcod + mid), a.box, mk(ra)))
    for f in ((a_left, a_right) if prefer_left else (a_right, a_left)):
        r = f()
        if r:
            return G.Diagram(dom=d.dom, cod=d.cod, layers=d.layers[:k]
                             + list(r) + d.layers[k + 2:])
    return None


def shuffle(c, d, n=8):
    for _ in range(n):
        if len(d.layers) < 2:
            break
        e = swap_layers(d, c.int(0, len(d.layers) - 2), c.p(.5))
        if e is not None:
            d = e
    return d


def judge(c, d, r, label, I, t0, k0):
    c.ev(label)
    c.eq(key(d), k0, 'input-altered', label)
    e = typing_error(r)
    c.check(e is None, f'{label}-ill-typed', lambda: f'{e}\n{d!r}\n->{r!r}')
    c.eq((flat(r.dom), flat(r.cod)), (flat(d.dom), flat(d.cod)),
         f'{label}-type', f'{d!r} -> {r!r}')
    c.eq(content(r), content(d), f'{label}-boxes', f'{d!r} -> {r!r}')
    c.check(count(r, G.Cup) <= count(d, G.Cup)
            and count(r, G.Cap) <= count(d, G.Cap), f'{label}-more-cups',
            lambda: f'{d!r} -> {r!r}')
    if t0 is not None:
        try:
            t = I(r, limit=2 ** 18)
        except TooBig:
            t = None
        if t is not None:
            c.ev('meaning')
            c.close(t, t0, f'{label}-meaning', f'{d!r} -> {r!r}')


def run(c, d, label=''):
    k0 = key(d)
    c.note(repr(d))
    sn = snakes(d)
    if sn:
        c.ev('snake_in_input')
        if len(sn) > 1:
            c.ev('snakes_2plus')
        if any(b > a + 1 for a, b in sn):
            c.ev('obstructed')
    if any(isinstance(x.box, G.Cap) and x.box.z % 2
           for x in d.layers):
        c.ev('reversed_cap')
    I = Interp(c.seed, {n: 2 for n in 'nspx'})
    try:
        t0 = I(d, limit=2 ** 18)
    except TooBig:
        t0 = None
    left = c.p(.35)
    if left:
        c.ev('left')
    r = d.remove_snakes(left=left)
    judge(c, d, r, 'remove_snakes', I, t0, k0)
    c.check(not snakes(r), 'snake-left', lambda: f'{d!r} -> {r!r}')
    c.eq(count(d, G.Cap) - count(r, G.Cap), count(d, G.Cup)
         - count(r, G.Cup), 'unbalanced-removal')
    c.eq(key(r.remove_snakes(left=left)), key(r), 'remove_snakes-idempotent')
    if sn or key(r) != k0:
        c.sig(k0)
    conn = connected(d)
    for name in ('normal_form', 'pregroup_normal_form'):
        if name == 'normal_form':
            def f(x):
                return x.normal_form(left=left)
        else:
            if left:
                continue

            def f(x):
                return x.pregroup_normal_form()
        try:
            n = f(d)
        except NotImplementedError:
            # documented for diagrams that are not connected only
            c.ev('disconnected')
            c.check(not boundary_connected(d) or not boundary_connected(r),
                    f'{name}-refused', lambda: f'connected diagram {d!r}')
            continue
        judge(c, d, n, name, I, t0, k0)
        if name == 'normal_form':
            c.check(not snakes(n), 'snake-left', lambda: f'{d!r} -> {n!r}')
            # no interchange move remains
            for k in range(len(n.layers) - 1):
                a, b = n.layers[k], n.layers[k + 1]
                la, lb = len(flat(a.left)), len(flat(b.left))
                if left:
                    c.check(lb < la + len(flat(a.box.cod)),
                            'interchange-left', lambda: f'{d!r} -> {n!r}')
                else:
                    c.check(la < lb + len(flat(b.box.dom)),
                            'interchange-left', lambda: f'{d!r} -> {n!r}')
        c.ev('idempotent')
        c.eq(key(f(n)), key(n), f'{name}-idempotent', repr(d))
        if key(n) != k0:
            c.sig(name, k0)
    return r


def snaky(c):
    d = rand_diagram(c, layers=c.int(1, 5), width=4, dom_hi=3,
                     kinds=['box', 'box', 'swap', 'spider', 'cup', 'cap'],
                     box_kw={'hi': 2}, names=('n', 's'), zmax=1)
    for _ in range(c.int(1, 3)):
        d = insert_snake(c, d)
        d = shuffle(c, d, c.int(0, 10))
    if d.dom or c.p(.5):
        pass
    run(c, d)


def free(c):
    d = rand_diagram(c, layers=c.int(2, 8), width=5, dom_hi=3,
                     kinds=['box', 'cup', 'cap', 'cap', 'cup', 'cup'],
                     box_kw={'hi': 2}, names=('n',), zmax=1)
    run(c, d)


def sentence(c):
    """Sentences whose words were rewritten to boxes bent by caps."""
    d = sentence_diagram(c, swaps=c.p(.4), max_words=4, max_wires=7,
                         names=('n', 's'))
    mode = c.int(0, 2)
    if mode:
        def ar(f, b):
            if len(flat(b.cod)) < 2 or not c.p(.7):
                return b
            cod = list(flat(b.cod))
            # bend the last wire: word = box with its first wires, capped
            if c.p(.5):
                n, z = cod[-1]
                inner = G.Box(b.name + "'", mk([(n, z - 1)]), mk(cod[:-1]))
                return (G.Cap(mk([(n, z - 1)]), mk([(n, z)]),
                              is_reversed=True)
                        >> inner @ mk([(n, z)]))
            n, z = cod[0]
            inner = G.Box(b.name + "'", mk([(n, z + 1)]), mk(cod[1:]))
            return (G.Cap(mk([(n, z)]), mk([(n, z + 1)]), is_reversed=True)
                    >> mk([(n, z)]) @ inner)
        layers = []
        cur = ()
        out = G.Id(G.Ty())
        for lay in d.layers:
            box = lay.box
            if isinstance(box, G.Word):
                e = ar(None, box).to_diagram()
            else:
                e = box.to_diagram()
            out = out >> G.Id(mk(flat(lay.left))) @ e @ G.Id(
                mk(flat(lay.right)))
        d = out
        if c.p(.4):
            d = insert_snake(c, d)
    run(c, d)


def mixed_caps(c):
    """Caps and cups of every winding convention around wires: a cap leg
    meeting a cup whose other end differs is not a snake."""
    n = c.choice('ns')
    z = c.int(-2, 2)
    a, b, e = z, z + c.choice([1, -1]), None
    e = b + c.choice([1, -1])
    # wires a --cap/cup-- : id_e @ cap(b, a) >> cup(e, b) @ id_a
    A, B, E = mk([(n, a)]), mk([(n, b)]), mk([(n, e)])
    if c.p(.5):
        d = (G.Id(E) @ cap(B, A)) >> (cup(E, B) @ G.Id(A))
    else:
        d = (cap(A, B) @ G.Id(E)) >> (G.Id(A) @ cup(B, E))
    if c.p(.6):
        f = rand_box(c, cod=mk([(n, e)]), hi=2)
        d = f.to_diagram() >> d
    if c.p(.6):
        d = d >> rand_box(c, dom=mk([(n, a)]), hi=2)
    if c.p(.5):
        x = rand_box(c, hi=2)
        d = d @ x if c.p(.5) else x @ d
        d = shuffle(c, d, 6)
    run(c, d)


def same_nf(c):
    """Interchange-equivalent connected diagrams without snakes have one
    normal form."""
    d = rand_diagram(c, layers=c.int(3, 7), width=5, dom_lo=1, dom_hi=3,
                     kinds=['box'], box_kw={'hi': 2})
    for lay in d.layers:
        if not len(lay.box.dom):
            c.skip('state')
    if not boundary_connected(d) or any(
            not len(x.box.cod) for x in d.layers):
        # effects/states make ordering depend on the boundary
        if not connected(d):
            c.skip('disconnected')
    if any(not len(x.box.cod) for x in d.layers):
        c.skip('effect')
    k0 = key(d)
    c.note(repr(d))
    e = shuffle(c, d, 12)
    left = c.p(.4)
    a, b = d.normal_form(left=left), e.normal_form(left=left)
    c.ev('interchanged_same_nf')
    c.eq(key(a), key(b), 'normal-form-not-unique', f'{d!r} ~ {e!r}')
    if key(e) != k0:
        c.sig('nf', key(a))
    c.eq(key(d), k0, 'input-altered')


def moves(c):
    """One box moved to another height past boxes it is not joined to."""
    d = rand_diagram(c, layers=c.int(1, 7), width=5, box_kw={'hi': 2})
    if c.p(.3):
        d = insert_snake(c, d)
    if not d.layers:
        c.skip('empty')
    i = c.int(0, len(d.layers) - 1)
    j = c.int(0, len(d.layers) - 1)
    left = c.p(.5)
    if c.p(.1):
        bad = c.choice([(-1, j), (i, -1), (len(d.layers), j),
                        (i, len(d.layers))])
        c.ev('move_out_of_range')
        c.raises(IndexError, lambda: interchange(d, *bad, left=left),
                 'moved-from-nowhere')
    k0 = key(d)
    c.note(f'{d!r} {i} -> {j} left={left}')
    want, at = d, i
    while at != j and want is not None:
        k = at if at < j else at - 1
        want = swap_layers(want, k, left)
        at += 1 if at < j else -1
    if want is None:
        c.ev('move_refused')
        c.raises(InterchangerError, lambda: interchange(d, i, j, left=left),
                 'joined-boxes-interchanged')
    else:
        c.ev('moved', i != j)
        c.ev('moved_far', abs(i - j) > 1)
        got = interchange(d, i, j, left=left)
        c.eq(key(got), key(want), 'interchange')
        c.sig('move', k0, i, j, left)
    c.eq(key(d), k0, 'input-altered')


FAMILIES = [Family('snaky', snaky, 900), Family('free', free, 600),
            Family('sentence', sentence, 500),
            Family('mixed_caps', mixed_caps, 400),
            Family('same_nf', same_nf, 500),
            Family('moves', moves, 600)]
