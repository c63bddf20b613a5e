"""P05 serialisation and copying round-trips."""
import copy
import json
import pickle

from lambeq.backend import grammar as G
from lambeq.backend.grammar import grammar

from vf.core import Family
from vf.gen import (flat, mk, rand_entity, rand_frame, rand_box, rand_ty,
                    rand_diagram, VOCAB, rand_atom)
from vf.sem import any_key, key

RULE = 'distinct entities (structural identity) round-tripped'
REQUIRED = ['json_dict', 'json_text', 'pickle', 'copy', 'deepcopy',
            'kind:Ty', 'kind:Box', 'kind:Word', 'kind:Daggered', 'kind:Cap',
            'kind:Cup', 'kind:Swap', 'kind:Spider', 'kind:Frame',
            'kind:DaggeredFrame', 'kind:Diagram', 'in_diagram:Daggered',
            'daggered_word', 'daggered_word_in_diagram', 'frame_component']


def same(c, a, b, m, msg):
    c.eq(type(b), type(a), f'{m}-class', msg)
    c.eq(any_key(b), any_key(a), f'{m}-structure', msg)
    c.check(a == b and b == a and not (a != b), f'{m}-equal',
            lambda: f'{msg}: {a!r} != {b!r}')
    c.eq(hash(a), hash(b), f'{m}-hash', msg)
    if not isinstance(a, G.Ty):
        c.eq((b.dom, b.cod), (a.dom, a.cod), f'{m}-type', msg)
    c.eq(repr(b), repr(a), f'{m}-repr', msg)


def roundtrip(c, x, label=''):
    k0 = any_key(x)
    kind = type(x).__name__
    c.note(f'{kind} {x!r}')
    c.ev('kind:' + kind)
    if isinstance(x, G.Daggered) and isinstance(x.box, G.Word):
        c.ev('daggered_word')
    if isinstance(x, G.Diagram):
        for b in x.boxes:
            c.ev('in_diagram:' + type(b).__name__)
            if isinstance(b, G.Daggered) and isinstance(b.box, G.Word):
                c.ev('daggered_word_in_diagram')
    if isinstance(x, G.Frame):
        for y in x.components:
            c.ev('frame_component')
            c.ev('component:' + type(y).__name__)
    c.sig(k0)
    # JSON as a dictionary
    data = x.to_json()
    c.eq(any_key(x), k0, 'encode-alters-object', kind)
    snap = copy.deepcopy(data)
    text = json.dumps(data)
    for how, f in (('category', lambda: grammar.from_json(data)),
                   ('class', lambda: type(x).from_json(data)),
                   ('category', lambda: grammar.from_json(data))):
        y = f()
        c.ev('json_dict')
        same(c, x, y, 'json', f'{kind} via {how} dictionary')
        c.eq(data, snap, 'decode-alters-data', f'{kind} via {how}')
    for how, f in (('category', lambda: grammar.from_json(text)),
                   ('class', lambda: type(x).from_json(text))):
        y = f()
        c.ev('json_text')
        same(c, x, y, 'json', f'{kind} via {how} text')
    c.eq(json.dumps(grammar.from_json(text).to_json()), text,
         'json-stable', kind)
    # pickle and copies
    for proto in (2, pickle.HIGHEST_PROTOCOL):
        y = pickle.loads(pickle.dumps(x, protocol=proto))
        c.ev('pickle')
        same(c, x, y, 'pickle', f'{kind} protocol {proto}')
    y = copy.deepcopy(x)
    c.ev('deepcopy')
    same(c, x, y, 'deepcopy', kind)
    z = copy.copy(x)
    c.ev('copy')
    same(c, x, z, 'copy', kind)
    c.eq(any_key(x), k0, 'object-altered', kind)
    # a deep copy is independent of the original
    if isinstance(y, G.Diagram) and y.layers:
        y.layers.pop()
        c.eq(any_key(x), k0, 'deepcopy-shares', kind)
    if isinstance(y, G.Frame) and not isinstance(y, G.DaggeredFrame) \
            and y.components:
        y.components.pop()
        c.eq(any_key(x), k0, 'deepcopy-shares', kind)


def entities(c):
    x = rand_entity(c)
    roundtrip(c, x)
    c.sample(repr(x)[:200])


def frames(c):
    roundtrip(c, rand_frame(c, 2))


def structural(c):
    a, b = rand_atom(c), rand_atom(c)
    for s in (G.Cap(a, a.l), G.Cup(a, a.r), G.Swap(a, b),
              G.Spider(a, c.int(0, 3), c.int(0, 3)),
              G.Word(c.choice(VOCAB), rand_ty(c, 0, 2)), rand_box(c)):
        z = c.int(-3, 3)
        roundtrip(c, s.rotate(z))
        roundtrip(c, s.rotate(z).dagger())
        roundtrip(c, (s.rotate(z).dagger() @ s).to_diagram())


def chains(c):
    """Random sequences of encodings applied to one object."""
    x = rand_entity(c)
    if isinstance(x, G.Layer):
        c.skip()
    y = x
    hist = []
    fs = {'json': lambda v: grammar.from_json(v.to_json()),
          'text': lambda v: grammar.from_json(json.dumps(v.to_json())),
          'pickle': lambda v: pickle.loads(pickle.dumps(v)),
          'copy': copy.copy, 'deepcopy': copy.deepcopy}
    for _ in range(5):
        h = c.choice(list(fs))
        hist.append(h)
        y = fs[h](y)
    c.note(f'{hist} on {x!r}')
    same(c, x, y, 'chain', str(hist))
    # operations still work on the result
    if not isinstance(x, G.Ty):
        c.eq(any_key(y.rotate(1).to_diagram()),
             any_key(x.rotate(1).to_diagram()), 'rotate-after', hist)
        c.eq(any_key(y.dagger().to_diagram()),
             any_key(x.dagger().to_diagram()), 'dagger-after', hist)
    c.sig('chain', hist, any_key(x))


FAMILIES = [Family('entities', entities, 1200), Family('frames', frames, 500),
            Family('structural', structural, 200),
            Family('chains', chains, 600)]
