"""Workload generators for grammar types, boxes and diagrams."""
from __future__ import annotations

from lambeq.backend import grammar as G

NAMES = ['n', 's', 'p', 'conj', 'n.r', 'a b']


def flat(ty):
    """The flat (name, z) sequence of a type: our own view of it."""
    if ty.objects:
        out = []
        for o in ty.objects:
            out += flat(o)
        return tuple(out)
    if ty.name is None:
        return ()
    return ((ty.name, ty.z),)


def mk(seq):
    """Type from a flat sequence, without using tensor."""
    seq = list(seq)
    if not seq:
        return G.Ty()
    obs = [G.Ty(n, z=z) for n, z in seq]
    return obs[0] if len(obs) == 1 else G.Ty(objects=obs)


def rand_seq(c, lo=0, hi=4, names=('n', 's', 'p'), zmax=2):
    return [(c.choice(names), c.choice([0] * 3 + list(range(-zmax, zmax + 1))))
            for _ in range(c.int(lo, hi))]


def rand_ty(c, lo=0, hi=4, names=('n', 's', 'p'), zmax=2):
    return mk(rand_seq(c, lo, hi, names, zmax))


def rand_atom(c, names=('n', 's', 'p'), zmax=2):
    return rand_ty(c, 1, 1, names, zmax)


def rand_box(c, dom=None, cod=None, lo=0, hi=3, dagger=True, rot=True,
             words=True, names=('f', 'g', 'h', 'Alice', 'tall')):
    """A box with exactly the given dom/cod (random if None).

    The identity of a box is its name plus its unrotated type, so that the
    same box can turn up at several rotations."""
    dom = rand_ty(c, lo, hi) if dom is None else dom
    cod = rand_ty(c, lo, hi) if cod is None else cod
    name = c.choice(names)
    z = c.choice([0, 0, 0, -1, 1, 2, -2]) if rot else 0
    if dagger and c.p(.25):
        if words and not len(cod) and c.p(.7):
            w = G.Word(name, dom, z) if z == 0 else \
                G.Word(name, dom.rotate(-z)).rotate(z)
            return w.dagger()
        return G.Box(name, cod, dom, z).dagger()
    if words and not len(dom) and c.p(.8):
        return G.Word(name, cod) if z == 0 else \
            G.Word(name, cod.rotate(-z)).rotate(z)
    return G.Box(name, dom, cod, z)


def layer(left, box, right):
    return G.Layer(left=left, box=box, right=right)


def rand_diagram(c, dom=None, layers=6, width=6, kinds=None, dom_hi=4,
                 box_kw=None, dom_lo=0, names=('n', 's', 'p'), zmax=2):
    """A random well-typed diagram, assembled directly from layers."""
    kinds = kinds or ['box', 'box', 'swap', 'cap', 'cup', 'spider']
    box_kw = box_kw or {}
    dom = rand_ty(c, dom_lo, dom_hi, names, zmax) if dom is None else dom
    cur = list(flat(dom))
    out = []
    for _ in range(layers):
        k = c.choice(kinds)
        w = len(cur)
        if k == 'box':
            n = c.int(0, min(w, 3))
            i = c.int(0, w - n)
            room = max(0, width - (w - n))
            m = c.int(0, min(3, room))
            if n == 0 and m == 0 and c.p(.8):
                continue
            b = rand_box(c, mk(cur[i:i + n]),
                         rand_ty(c, m, m, names, zmax), **box_kw)
        elif k == 'swap':
            if w < 2:
                continue
            i, n = c.int(0, w - 2), 2
            b = G.Swap(mk(cur[i:i + 1]), mk(cur[i + 1:i + 2]))
        elif k == 'cap':
            if w + 2 > width:
                continue
            i, n = c.int(0, w), 0
            a = rand_atom(c, names, zmax)
            b = G.Cap(a, a.l) if c.p(.6) else G.Cap(a, a.r, is_reversed=True)
        elif k == 'cup':
            cand = [j for j in range(w - 1) if cur[j][0] == cur[j + 1][0]
                    and abs(cur[j][1] - cur[j + 1][1]) == 1]
            if not cand:
                continue
            i, n = c.choice(cand), 2
            b = G.Cup(mk(cur[i:i + 1]), mk(cur[i + 1:i + 2]),
                      is_reversed=cur[i][1] > cur[i + 1][1])
        elif k == 'spider':
            if not w:
                continue
            i = c.int(0, w - 1)
            n = 1
            while i + n < w and cur[i + n] == cur[i] and c.p(.7):
                n += 1
            m = c.int(0, min(3, max(0, width - (w - n))))
            b = G.Spider(mk([cur[i]]), n, m)
        else:
            raise AssertionError(k)
        out.append(layer(mk(cur[:i]), b, mk(cur[i + n:])))
        cur[i:i + n] = list(flat(b.cod))
    return G.Diagram(dom=dom, cod=mk(cur), layers=out)


def rand_composable(c, n=2, **kw):
    ds = [rand_diagram(c, **kw)]
    for _ in range(n - 1):
        kw2 = dict(kw)
        kw2['dom'] = mk(flat(ds[-1].cod))
        ds.append(rand_diagram(c, **kw2))
    return ds


VOCAB = ['Alice', 'Bob', 'runs', 'loves', 'the', 'who', 'quickly', 'and',
         'is', 'red', 'Straße', '走る', "don't", '.', 'A', 'a', 'THE']


def pregroup_sentence(c, max_words=5, swaps=True, planar_only=False,
                      names=('n', 's', 'p'), max_wires=14):
    """A random pregroup sentence diagram: words tensored left to right,
    followed by cups/swaps, generated backwards from its target type by
    splitting/nesting so that it always reduces."""
    target = c.choice(['s', 's', 's', 'n'])
    # planar bracket structure: a random well-nested word over open/close
    # with one uncancelled wire
    wires = [(target, 0)]
    partner = [None]
    for _ in range(c.int(0, (max_wires - 1) // 2)):
        pos = c.int(0, len(wires))
        nm, z = c.choice(names), c.choice([0, 0, 0, -1, 1])
        wires[pos:pos] = [(nm, z), (nm, z + 1)]
    # cut into words
    n = c.int(1, min(max_words, len(wires)))
    cuts = sorted(c.rng.sample(range(1, len(wires)), n - 1)) if n > 1 else []
    words, prev = [], 0
    for cut in cuts + [len(wires)]:
        words.append(G.Word(c.choice(VOCAB), mk(wires[prev:cut])))
        prev = cut
    return words, wires


def reduce_planar(c, wires):
    """All-cups reduction of a planar wire sequence into Layers; the order of
    independent cups is random."""
    cur = list(wires)
    layers = []
    while True:
        cand = [j for j in range(len(cur) - 1) if cur[j][0] == cur[j + 1][0]
                and cur[j + 1][1] - cur[j][1] == 1]
        if not cand:
            break
        i = c.choice(cand)
        b = G.Cup(mk(cur[i:i + 1]), mk(cur[i + 1:i + 2]))
        layers.append(layer(mk(cur[:i]), b, mk(cur[i + 2:])))
        cur[i:i + 2] = []
    return layers, cur


def words_layers(words):
    left, layers = [], []
    for w in words:
        layers.append(layer(mk(left), w, G.Ty()))
        left += list(flat(w.cod))
    return layers, left


def sentence_diagram(c, swaps=False, **kw):
    """Word layers, then (optionally with swaps mixed in) cups."""
    words, wires = pregroup_sentence(c, **kw)
    layers, cur = words_layers(words)
    if swaps:
        for _ in range(c.int(0, 3)):
            if len(cur) >= 2:
                i = c.int(0, len(cur) - 2)
                layers.append(layer(mk(cur[:i]),
                                    G.Swap(mk([cur[i]]), mk([cur[i + 1]])),
                                    mk(cur[i + 2:])))
                cur[i], cur[i + 1] = cur[i + 1], cur[i]
            if c.p(.5):
                more, cur = reduce_planar(c, cur)
                layers += more
    more, cur = reduce_planar(c, cur)
    layers += more
    return G.Diagram(dom=G.Ty(), cod=mk(cur), layers=layers)


def rand_frame(c, depth=2, dagger=True, rot=True, min_comp=0):
    """A random frame whose components are boxes, words, diagrams, frames."""
    comps = []
    for _ in range(c.int(min_comp, 3)):
        k = c.int(0, 5)
        if k == 0 and depth > 0:
            comps.append(rand_frame(c, depth - 1, dagger, rot, min_comp))
        elif k == 1:
            comps.append(rand_diagram(c, layers=2, width=3, dom_hi=2))
        elif k == 2:
            comps.append(G.Word(c.choice(VOCAB), rand_ty(c, 0, 2)))
        elif k == 3 and depth > 0:
            f = rand_frame(c, depth - 1, dagger, rot, min_comp)
            d = rand_box(c, cod=f.dom, hi=2).to_diagram()
            comps.append(d >> f)
        else:
            comps.append(rand_box(c, hi=2, dagger=dagger, rot=rot))
    f = G.Frame(c.choice(['F', 'G', 'says']), rand_ty(c, 0, 2),
                rand_ty(c, 0, 2), components=comps)
    if dagger and c.p(.2):
        f = f.dagger()
    if rot and c.p(.3):
        f = f.rotate(c.choice([-2, -1, 1, 2]))
    return f


def rand_entity(c, frames=True):
    """Any grammar entity: type, box, structural box, frame, diagram."""
    k = c.int(0, 9)
    if k == 0:
        return rand_ty(c, 0, 4)
    if k in (1, 2):
        return rand_box(c, hi=3)
    if k == 3:
        w = G.Word(c.choice(VOCAB), rand_ty(c, 0, 3))
        w = w.rotate(c.choice([0, 0, 1, -1, 2]))
        return w.dagger() if c.p(.4) else w
    if k == 4:
        a = rand_atom(c)
        s = c.choice([lambda: G.Cap(a, a.l), lambda: G.Cup(a, a.r),
                      lambda: G.Swap(a, rand_atom(c)),
                      lambda: G.Spider(a, c.int(0, 3), c.int(0, 3))])()
        s = s.rotate(c.choice([0, 0, 1, -1, 2, 3]))
        return s.dagger() if c.p(.4) else s
    if k == 5 and frames:
        return rand_frame(c)
    if k == 6:
        return sentence_diagram(c, swaps=c.p(.5))
    d = rand_diagram(c, layers=c.int(0, 5))
    if frames and c.p(.3):
        f = rand_frame(c, 1)
        d = d @ f
    r = c.int(0, 3)
    if r == 1:
        d = d.dagger()
    elif r == 2:
        d = d.rotate(c.choice([-1, 1, 2]))
    return d
