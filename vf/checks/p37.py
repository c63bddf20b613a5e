"""P37 frames."""
import copy

from lambeq.backend import grammar as G

from vf.core import Family
from vf.gen import (flat, mk, rand_frame, rand_ty, rand_box, rand_diagram,
                    rand_seq, layer)
from vf.sem import any_key, key, typing_error, rotate_seq

RULE = 'distinct frames by structure, with at least one component'
REQUIRED = ['rotate', 'dagger', 'order', 'compose', 'functor', 'eq',
            'nested_in_diagram', 'daggered_frame', 'no_components']


def order(x):
    """Depth of frame nesting, our own count."""
    if isinstance(x, G.Frame):
        return 1 + max([order(y) for y in x.components], default=0)
    if isinstance(x, G.Diagram):
        return max([order(b) for b in x.boxes], default=0)
    if isinstance(x, G.Daggered):
        return order(x.box)
    return 0


def rot_key(x, z):
    """Structural key expected after rotating by z (structure computed on
    keys: rotate our own way)."""
    if isinstance(x, G.DaggeredFrame):
        return rot_frame(x.frame, z).dagger()
    return rot_frame(x, z)


def rot_any(x, z):
    if isinstance(x, G.Frame):
        return rot_key(x, z)
    return x.rotate(z)


def rot_frame(f, z):
    comps = [rot_any(y, z) for y in f.components]
    if z % 2:
        comps.reverse()
    return G.Frame(f.name, mk(rotate_seq(flat(f.dom), z)),
                   mk(rotate_seq(flat(f.cod), z)), z=f.z + z,
                   components=comps)


def algebra(c):
    f = rand_frame(c, 2, rot=c.p(.5))
    c.note(repr(f))
    k0 = any_key(f)
    if f.components:
        c.sig(k0)
    else:
        c.ev('no_components')
    if isinstance(f, G.DaggeredFrame):
        c.ev('daggered_frame')
    if any(isinstance(x, G.Diagram) and order(x) for x in f.components):
        c.ev('nested_in_diagram')
    c.ev('order')
    c.eq(f.frame_order, order(f), 'frame-order', repr(f))
    c.eq(f.frame_type, len(f.components), 'frame-type')
    z, w = c.int(-3, 3), c.int(-3, 3)
    c.ev('rotate')
    c.eq(any_key(f.rotate(z)), any_key(rot_key(f, z)), 'rotate',
         f'rotate({z})')
    c.eq(any_key(f.rotate(z).rotate(w)), any_key(f.rotate(z + w)),
         'rotate-compose', f'{z},{w}')
    # the winding number itself, on every kind of frame
    c.eq([x.z for x in (f.rotate(z), f.dagger(), f.rotate(z).dagger(),
                        f.dagger().rotate(z), f.l, f.r)],
         [f.z + z, f.z, f.z + z, f.z + z, f.z - 1, f.z + 1], 'winding')
    c.eq(f.l.r, f, 'adjoint-inverse')
    c.eq(f.rotate(z).unwind().z, 0, 'unwind')
    c.ev('dagger')
    d = f.dagger()
    c.eq((flat(d.dom), flat(d.cod)), (flat(f.cod), flat(f.dom)),
         'dagger-type')
    c.eq([any_key(x) for x in d.components],
         [any_key(x.dagger()) for x in f.components], 'dagger-components')
    c.eq(any_key(d.dagger()), k0, 'dagger-involution')
    c.eq(any_key(d.rotate(z)), any_key(f.rotate(z).dagger()),
         'dagger-rotate')
    c.eq(any_key(f), k0, 'altered')


def compose(c):
    f, g = rand_frame(c, 1), rand_frame(c, 1)
    c.note(f'{f!r} ; {g!r}')
    c.ev('compose')
    d = f @ g
    c.check(typing_error(d) is None, 'tensor-ill-typed', repr(d))
    c.eq((flat(d.dom), flat(d.cod)), (flat(f.dom) + flat(g.dom),
                                      flat(f.cod) + flat(g.cod)), 'tensor')
    b = rand_box(c, dom=mk(flat(f.cod)))
    d = f >> b
    c.eq((flat(d.dom), flat(d.cod)), (flat(f.dom), flat(b.cod)), 'then')
    c.eq([any_key(x) for x in d.boxes], [any_key(f), any_key(b)],
         'then-boxes')
    c.check(d.has_frames, 'has_frames', repr(d))
    c.check(not (b >> G.Id(b.cod)).has_frames, 'has_frames', repr(b))
    e = d.dagger()
    c.check(typing_error(e) is None, 'dagger-ill-typed', repr(e))
    c.eq(any_key(e.dagger()), any_key(d), 'diagram-dagger')
    r = d.rotate(c.int(-2, 2))
    c.check(typing_error(r) is None, 'rotate-ill-typed', repr(r))
    if flat(f.cod) != flat(g.dom):
        c.raises(Exception, lambda: f >> g, 'compose-accepted', f'{f!r}>>{g!r}')
    c.sig('comp', any_key(d))


def equality(c):
    f = rand_frame(c, 1, min_comp=1)
    g = copy.deepcopy(f)
    c.ev('eq')
    c.check(f == g, 'equality', repr(f))
    c.eq(hash(f), hash(g), 'hash')
    base = f.frame if isinstance(f, G.DaggeredFrame) else f
    alts = [G.Frame(base.name + 'x', base.dom, base.cod, z=base.z,
                    components=list(base.components)),
            G.Frame(base.name, base.dom, base.cod, z=base.z,
                    components=list(base.components) + [G.Word('z', G.Ty())]),
            G.Frame(base.name, base.dom @ G.Ty('x'), base.cod, z=base.z,
                    components=list(base.components)),
            G.Frame(base.name, base.dom, base.cod @ G.Ty('x'), z=base.z,
                    components=list(base.components)),
            G.Frame(base.name, base.dom, base.cod, z=base.z + 2,
                    components=list(base.components)),
            G.Frame(base.name, base.dom, base.cod, z=base.z,
                    components=base.components[:-1]),
            G.Frame(base.name, base.dom, base.cod, z=base.z,
                    components=base.components[:-1]
                    + [G.Box('other', G.Ty('n'), G.Ty('q'))])]
    for a in alts:
        if isinstance(f, G.DaggeredFrame):
            a = a.dagger()
        c.check(f != a, 'equality', f'{f!r} == {a!r}')
        c.check(f.to_diagram() != a.to_diagram(), 'equality', repr(a))
    c.sig('eq', any_key(f))


def functor(c):
    """A functor that maps frames componentwise."""
    obmap = {n: tuple(rand_seq(c, 0, 2, ('a', 'b'), 1)) for n in 'nsp'}

    def obseq(seq):
        out = ()
        for n, z in seq:
            out += rotate_seq(obmap[n], z)
        return out

    def ar(F, b):
        if isinstance(b, G.Frame):
            return G.Frame('F' + b.name, F(b.dom), F(b.cod),
                           components=[F(x) for x in b.components])
        return G.Box('F' + b.name, F(b.dom), F(b.cod))
    F = G.Functor(G.grammar, lambda F, t: mk(obmap[t.name]), ar)
    f = rand_frame(c, 2)
    c.note(f'{obmap} {f!r}')
    k0 = any_key(f)
    r = F(f)
    c.ev('functor')
    c.eq(any_key(f), k0, 'functor-alters-input')
    c.eq((flat(r.dom), flat(r.cod)), (obseq(flat(f.dom)),
                                      obseq(flat(f.cod))), 'functor-type')
    c.eq(len(r.components), len(f.components), 'functor-components')
    base = f
    c.eq(any_key(F(f.dagger())), any_key(F(f).dagger()), 'functor-dagger',
         repr(f))
    z = c.int(-2, 2)
    c.eq(any_key(F(f.rotate(z))), any_key(F(f).rotate(z)), 'functor-rotate',
         f'{z} {f!r}')
    for x, y in zip(f.components, r.components):
        c.eq((flat(y.dom), flat(y.cod)), (obseq(flat(x.dom)),
                                          obseq(flat(x.cod))),
             'functor-component-type', repr(x))
    c.sig('fun', obmap, k0)


FAMILIES = [Family('algebra', algebra, 700), Family('compose', compose, 400),
            Family('equality', equality, 400), Family('functor', functor, 400)]
