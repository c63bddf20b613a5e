"""P04 functors: images are compared with an independently computed
composite tensor; call histories with fresh functors; ill-typed maps must be
refused every time; inputs and later results must be unaffected by callers
changing earlier results."""
import copy
import zlib

import numpy as np

from lambeq.backend import grammar as G

from vf.core import Family
from vf.gen import flat, mk, rand_seq, rand_box, rand_diagram, rand_atom
from vf.sem import (Interp, TooBig, key, any_key, typing_error, rotate_seq,
                    box_key)

RULE = ('distinct (object map, diagram) pairs mapped, call histories of '
        'length > 1, and ill-typed functors applied')
REQUIRED = ['mapped', 'meaning_compared', 'ill_typed_refused', 'history_step',
            'mutation', 'reversed_cup', 'dagger_image', 'rotated_image',
            'quantum_source']
NAMES = ('n', 's', 'p')


class Fun:
    """A random functor together with our own account of what it does."""

    def __init__(self, c, maxlen=2, bad=None):
        self.seed = c.int(0, 10 ** 9)
        self.obmap = {n: tuple(rand_seq(c, 0, maxlen, ('a', 'b'), 1))
                      for n in NAMES}
        self.images = {}
        self.calls = []
        self.bad = bad            # predicate on box keys: ill-typed image

    def obseq(self, seq):
        out = ()
        for n, z in seq:
            out += rotate_seq(self.obmap[n], z)
        return out

    def image(self, box):
        """Image diagram of an unrotated, undaggered box (fresh object)."""
        k = box_key(box)
        dom, cod = self.obseq(flat(box.dom)), self.obseq(flat(box.cod))
        r = zlib.crc32(repr((self.seed, k)).encode())
        if self.bad and self.bad(k):
            if r % 2:
                cod = cod + (('a', 0),)
            else:
                dom = dom + (('b', 0),)
        L = G.Layer
        mid = ((('a', 0),) * (r % 2))
        nm = f'F{r % 1000}_{box.name}'
        if r % 3 == 0:
            return G.Diagram(dom=mk(dom), cod=mk(cod), layers=[
                L(left=G.Ty(), box=G.Box(nm, mk(dom), mk(mid)),
                  right=G.Ty()),
                L(left=G.Ty(), box=G.Box(nm + "'", mk(mid), mk(cod)),
                  right=G.Ty())])
        if r % 3 == 1:
            return G.Box(nm, mk(dom), mk(cod))
        return G.Diagram(dom=mk(dom), cod=mk(cod), layers=[
            L(left=G.Ty(), box=G.Box(nm, mk(dom), mk(cod)), right=G.Ty())])

    def make(self):
        def ob(F, t):
            self.calls.append(('ob', flat(t)))
            return mk(self.obmap[t.name])

        def ar(F, b):
            self.calls.append(('ar', box_key(b)))
            return self.image(b)
        return G.Functor(G.grammar, ob, ar)

    # -- independent meaning ------------------------------------------------
    def box_tensor(self, J, b):
        if isinstance(b, (G.Cup, G.Cap)):
            l = self.obseq(flat(b.left))
            sh = tuple(J.dim(n) for n, _ in l)
            size = int(np.prod(sh)) if sh else 1
            n = len(sh)
            t = np.eye(size, dtype=complex).reshape(sh + sh)
            return t.transpose(list(range(n))
                               + list(reversed(range(n, 2 * n)))), \
                (2 * n if isinstance(b, G.Cup) else 0)
        if isinstance(b, G.Swap):
            l, r = self.obseq(flat(b.left)), self.obseq(flat(b.right))
            a = [J.dim(n) for n, _ in l]
            d = [J.dim(n) for n, _ in r]
            n, m = len(a), len(d)
            sh = tuple(a + d)
            size = int(np.prod(sh)) if sh else 1
            t = np.eye(size, dtype=complex).reshape(sh + sh)
            k = n + m
            return t.transpose(list(range(k)) + list(range(k + n, 2 * k))
                               + list(range(k, k + n))), k
        if isinstance(b, G.Spider):
            l = self.obseq(flat(b.type))
            i, o = b.n_legs_in, b.n_legs_out
            out = np.ones((), dtype=complex)
            for n, _ in l:
                d = J.dim(n)
                t = np.zeros((d,) * (i + o), dtype=complex)
                if i + o == 0:
                    t = np.array(complex(d))
                for x in range(d):
                    if i + o:
                        t[(x,) * (i + o)] = 1
                out = np.multiply.outer(out, t)
                if out.size > 2 ** 16:
                    raise TooBig
            k = len(l)
            order = [at * (i + o) + leg for leg in range(i + o)
                     for at in range(k)]
            return out.transpose(order), i * k
        if isinstance(b, G.Daggered):
            t, n = self.box_tensor(J, b.box)
            k = t.ndim
            return t.transpose(list(range(n, k)) + list(range(n))).conj(), \
                k - n
        if b.z:
            t, n = self.box_tensor(J, b.rotate(-b.z))
            if b.z % 2:
                k = t.ndim
                t = t.transpose(list(reversed(range(n)))
                                + list(reversed(range(n, k)))).conj()
            return t, n
        im = self.image(b).to_diagram()
        return J(im), len(flat(im.dom))

    def meaning(self, J, d, limit=2 ** 18):
        dom = self.obseq(flat(d.dom))
        sh = tuple(J.dim(n) for n, _ in dom)
        nd = len(sh)
        size = int(np.prod(sh)) if sh else 1
        if size ** 2 > limit:
            raise TooBig
        t = np.eye(size, dtype=complex).reshape(sh + sh)
        for lay in d.layers:
            i = len(self.obseq(flat(lay.left)))
            a, n = self.box_tensor(J, lay.box)
            m = a.ndim - n
            t = np.tensordot(t, a, axes=(
                list(range(nd + i, nd + i + n)), list(range(n))))
            k = t.ndim
            t = t.transpose(list(range(nd + i)) + list(range(k - m, k))
                            + list(range(nd + i, k - m)))
            if t.size > limit:
                raise TooBig
        return t


def source(c, layers=4, width=4):
    return rand_diagram(c, layers=layers, width=width, dom_hi=2,
                        names=NAMES, zmax=2)


def check_image(c, F, fun, d, label):
    before = key(d)
    c.note(f'{label}: obmap {fun.obmap} diagram {d!r}')
    r = F(d)
    c.eq(key(d), before, 'input-altered', label)
    c.ev('mapped')
    r = r.to_diagram()
    e = typing_error(r)
    c.check(e is None, 'image-ill-typed', lambda: f'{label}: {e}')
    c.eq(flat(r.dom), fun.obseq(flat(d.dom)), 'image-dom', label)
    c.eq(flat(r.cod), fun.obseq(flat(d.cod)), 'image-cod', label)
    J = Interp(fun.seed)
    try:
        want, got = fun.meaning(J, d), J(r)
    except TooBig:
        return r
    c.ev('meaning_compared')
    s = np.max(np.abs(want)) + 1e-12 if want.size else 1
    c.close(got / s, want / s, 'image-meaning', label, atol=1e-7)
    return r


def structure(c):
    fun = Fun(c)
    F = fun.make()
    d = source(c)
    for b in d.boxes:
        if isinstance(b, (G.Cup, G.Cap)) and b.z:
            c.ev('reversed_cup')
        elif isinstance(b, G.Daggered):
            c.ev('dagger_image')
        elif b.z:
            c.ev('rotated_image')
    check_image(c, F, fun, d, 'diagram')
    c.sig(fun.obmap, key(d))
    c.sample((fun.obmap, repr(d)[:200]))
    # boxes and types on their own
    for b in d.boxes[:2]:
        r = F(b)
        c.eq((flat(r.dom), flat(r.cod)),
             (fun.obseq(flat(b.dom)), fun.obseq(flat(b.cod))), 'box-image')
    s = rand_seq(c, 0, 4, NAMES, 3)
    c.eq(flat(F(mk(s))), fun.obseq(s), 'type-image', s)
    # functoriality on operations
    G_ = fun.make()
    e = rand_diagram(c, dom=mk(flat(d.cod)), layers=2, width=4, names=NAMES)
    c.eq(key(G_(d >> e)), key(G_(d).to_diagram() >> G_(e).to_diagram()),
         'preserves-then')
    c.eq(key(G_(d @ e)) if len(flat(d.dom)) < 4 else 0,
         key(G_(d).to_diagram() @ G_(e).to_diagram())
         if len(flat(d.dom)) < 4 else 0, 'preserves-tensor')
    c.eq(key(G_(G.Diagram.id(d.dom))), key(G.Diagram.id(G_(d.dom))),
         'preserves-id')
    for z in (-1, 1, 2):
        check_image(c, G_, fun, d.rotate(z), f'rotate({z})')
    check_image(c, G_, fun, d.dagger(), 'dagger')


def transposes(c):
    """Cups/caps of compound images, reversed ones included."""
    fun = Fun(c, maxlen=3)
    F = fun.make()
    a = rand_atom(c, NAMES)
    b = c.choice([G.Cup(a, a.r), G.Cap(a, a.l), G.Cup(a, a.r).dagger(),
                  G.Cap(a, a.l).dagger(), G.Cup(a, a.r).l, G.Cap(a, a.l).r,
                  G.Swap(a, rand_atom(c, NAMES)),
                  G.Spider(a, c.int(0, 2), c.int(0, 2))])
    if isinstance(b, (G.Cup, G.Cap)) and b.z:
        c.ev('reversed_cup')
    check_image(c, F, fun, b.to_diagram(), 'structural box')
    d = source(c, 1, 2)
    check_image(c, F, fun, d.transpose(left=c.p(.5)), 'transpose')
    check_image(c, F, fun, d.transpose(left=c.p(.5)).dagger(),
                'transpose-dagger')
    c.sig(fun.obmap, any_key(b), key(d))


def ill_typed(c):
    d = source(c)
    cand = [b for b in d.boxes if isinstance(b, (G.Box,)) and not isinstance(
        b, (G.Cup, G.Cap, G.Swap, G.Spider))]
    if not cand:
        c.skip('no box')
    b = c.choice(cand)
    base = b.box if isinstance(b, G.Daggered) else b
    base = base.rotate(-base.z)
    k0 = box_key(base)
    fun = Fun(c, bad=lambda k: k == k0)
    F = fun.make()
    c.note(f'bad image for {base!r}; obmap {fun.obmap}')
    forms = [lambda: F(base), lambda: F(base.to_diagram()),
             lambda: F(base.dagger()), lambda: F(base.rotate(1)),
             lambda: F(base.rotate(-2)), lambda: F(d), lambda: F(b),
             lambda: F(base @ G.Ty('n')),
             lambda: F(base.dagger().to_diagram() >> base)]
    hist = [c.int(0, len(forms) - 1) for _ in range(6)]
    hist += [hist[0], hist[0], hist[1]]
    other = G.Word('fine', G.Ty('n'))
    for i, h in enumerate(hist):
        c.note(f'application {i}: form {h}')
        c.raises(Exception, forms[h], 'ill-typed-accepted',
                 f'application {i} (form {h}) of an ill-typed functor')
        c.ev('ill_typed_refused')
        if c.p(.3) and box_key(other) != k0:
            F(other)
    c.sig(fun.obmap, any_key(base), hist)


def histories(c):
    """One functor object, many applications, callers editing results."""
    fun = Fun(c)
    F = fun.make()
    ds = [source(c, layers=c.int(0, 3)) for _ in range(4)]
    ds.append(ds[0].dagger())
    ds.append(ds[1].l)
    ents = ds + [b for d in ds for b in d.boxes][:6]
    fresh = [any_key(fun.make()(e)) for e in ents]
    srckeys = [any_key(e) for e in ents]
    for e in ents:         # first results are only looked at (see first_alias)
        F(e)
    for _ in range(14):
        i = c.int(0, len(ents) - 1)
        e = ents[i]
        c.note(f'apply to entity {i}')
        r = F(e)
        c.ev('history_step')
        c.eq(any_key(r), fresh[i], 'history-dependent',
             f'application to entity {i}: {e!r}')
        c.eq([any_key(x) for x in ents], srckeys, 'input-altered')
        if c.p(.6):          # the caller edits what it was given
            c.ev('mutation')
            c.note(f'caller edits the image of entity {i}')
            if isinstance(r, G.Diagram):
                how = c.int(0, 3)
                if how == 0 and r.layers:
                    r.layers.pop()
                elif how == 1:
                    r.layers.append('junk')
                elif how == 2 and r.layers:
                    r.layers[0].box = G.Box('edited', r.layers[0].box.dom,
                                            r.layers[0].box.cod)
                else:
                    r.layers[:] = []
                    r.dom = r.cod = G.Ty('edited')
            else:
                try:
                    r.name = 'edited'
                except Exception:
                    pass
        if c.p(.3):
            t = mk(rand_seq(c, 1, 3, NAMES, 2))
            s = flat(t)
            F(t)
            rt = F(t)
            c.eq(flat(rt), fun.obseq(s), 'history-dependent-type', s)
            c.ev('mutation')
            if rt.objects:
                rt.objects.pop()
            c.eq(flat(t), s, 'input-altered')
            c.eq(flat(F(mk(s))), fun.obseq(s), 'history-dependent-type', s)
    c.sig('hist', fun.obmap, srckeys)


def first_alias(c):
    """The object returned by the very first application, edited."""
    fun = Fun(c)
    F = fun.make()
    w = G.Word('w', G.Ty('n') @ G.Ty('s')).to_diagram()
    fresh = any_key(fun.make()(w))
    r = F(w)
    r.layers.clear()
    again = F(w)
    c.known_if('functor-first-result-aliased', any_key(again) != fresh,
               'editing the first image of a diagram changes later images')
    c.ev('mutation')


def missing_maps(c):
    F = G.Functor(G.grammar, lambda F, t: t)
    b = rand_box(c, rot=False, dagger=False)
    c.raises(Exception, lambda: F(b), 'missing-arrow-map', 'no ar given')
    c.raises(Exception, lambda: F(b), 'missing-arrow-map', 'no ar given')
    d = rand_diagram(c, kinds=['swap', 'cap', 'cup', 'spider'])
    c.eq(key(F(d)), key(d), 'identity-on-objects', repr(d))
    H = G.Functor(G.grammar, None, lambda F, b: b)
    c.raises(Exception, lambda: H(G.Ty('n')), 'missing-object-map')
    c.ev('ill_typed_refused')


def identity_functor(c):
    F = G.Functor(G.grammar, lambda F, t: t, lambda F, b: b)
    d = source(c, 6, 6)
    r = F(d)
    c.eq(key(r), key(d), 'identity-functor', repr(d))
    c.eq(r, d, 'identity-functor-eq', repr(d))
    c.ev('mapped')
    c.sig('id', key(d))


def quantum_source(c):
    """Functors out of circuits: boxes that differ only in control distance
    or phase must not be confused by the caches."""
    from lambeq.backend import quantum as Q
    seen = []

    def ar(F, b):
        seen.append(b)
        return b
    F = G.Functor(Q.quantum, lambda F, t: t, ar)

    def ident(b):
        out = [type(b).__name__]
        while isinstance(b, Q.Controlled):
            out.append(b.distance)
            b = b.controlled
        return out + [b.name, getattr(b, 'phase', None), b.z,
                      getattr(b, 'data', None) is None or
                      np.asarray(b.data).tolist()
                      if not hasattr(b, 'phase') else None]
    base = c.choice([Q.X, Q.Z, Q.Rx(.25), Q.Rx(.75), Q.Rz(.125)])
    ds = []
    for _ in range(5):
        g = base
        for _ in range(c.int(1, 2)):
            g = Q.Controlled(g, c.choice([-2, -1, 1, 2]))
        ds.append(g.to_diagram() if c.p(.5) else g)
    for g in ds:
        c.note(f'{ident(g.boxes[0]) if isinstance(g, Q.Diagram) else ident(g)}')
        r = F(g)
        a = [ident(x) for x in (r.boxes if isinstance(r, Q.Diagram)
                                else [r])]
        b = [ident(x) for x in (g.boxes if isinstance(g, Q.Diagram)
                                else [g])]
        c.ev('quantum_source')
        c.eq(a, b, 'quantum-history-dependent', 'identity functor image')
    c.sig('q', [str(ident(g.boxes[0])) for g in ds])


FAMILIES = [
    Family('structure', structure, 500), Family('transposes', transposes, 300),
    Family('ill_typed', ill_typed, 500), Family('histories', histories, 250),
    Family('first_alias', first_alias, 4, 4),
    Family('missing_maps', missing_maps, 60),
    Family('identity_functor', identity_functor, 200),
    Family('quantum_source', quantum_source, 200),
]
