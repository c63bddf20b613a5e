"""P08 diagram-level rewriting: cups, swaps, codomains."""
from collections import Counter

from lambeq.backend import grammar as G
from lambeq.rewrite import (RemoveCupsRewriter, RemoveSwapsRewriter,
                            UnifyCodomainRewriter)

from vf.ccg import derivation, diagram_wiring
from vf.core import Family
from vf.gen import (flat, mk, rand_ty, rand_diagram, sentence_diagram,
                    words_layers, reduce_planar, layer, VOCAB)
from vf.sem import Interp, TooBig, key, typing_error, box_key

RULE = 'distinct inputs having cups, swaps or a codomain to be changed'
REQUIRED = ['cups_meaning', 'cups_fewer', 'cups_list', 'nested_cups',
            'several_words_cup', 'selfcup', 'swaps_none', 'swaps_present',
            'detached', 'word_merged', 'last_word_merged', 'not_pregroup',
            'unify_match', 'unify_same', 'unify_list', 'ccg_input',
            'reversed_cup', 'mixed_nest', 'with_domain']


def ncups(d):
    return sum(isinstance(x.box, G.Cup) for x in d.layers)


def ccg_diagram(c, planar, **kw):
    kw.setdefault('unary', c.choice([False, False, True, 'swap']))
    try:
        return derivation(c, leaves=c.int(1, 6), tr=c.p(.5), **kw) \
            .tree().to_diagram(planar=planar)
    except ValueError:
        c.skip('needs a swap')


def base_name(b):
    while isinstance(b, G.Daggered):
        b = b.box
    return b.name


def content(d):
    """Words and boxes up to bending: base name and flat type at winding 0 up
    to dagger/rotation."""
    out = Counter()
    for lay in d.layers:
        b = lay.box
        if isinstance(b, (G.Cup, G.Cap, G.Swap, G.Spider)):
            out[type(b).__name__] += 0
            continue
        while True:
            if isinstance(b, G.Daggered):
                b = b.box
            elif b.z:
                b = b.rotate(-b.z)
            else:
                break
        out[(b.name, flat(b.dom), flat(b.cod))] += 1
    return +out


def cups_case(c):
    r = c.int(0, 9)
    if r < 3:
        d = sentence_diagram(c, swaps=c.p(.4), max_words=6)
    elif r < 6:
        c.ev('ccg_input')
        d = ccg_diagram(c, c.p(.5))
    elif r < 8:
        d = sentence_diagram(c, max_words=4, max_wires=10)
        d = d >> rand_diagram(c, dom=d.cod, layers=4, width=5)
    else:
        d = wide(c) if c.p(.6) else mixed_nest(c)
    c.note(repr(d))
    k0 = key(d)
    prev = None
    for lay in d.layers:
        b = lay.box
        if isinstance(b, G.Cup):
            if prev is not None and len(flat(lay.left)) == prev - 1:
                c.ev('nested_cups')
            prev = len(flat(lay.left))
            if flat(b.left)[0][1] > flat(b.right)[0][1]:
                c.ev('reversed_cup')
        else:
            prev = None
    rw = RemoveCupsRewriter()
    if c.p(.3):
        c.ev('cups_list')
        o = sentence_diagram(c)
        rs = rw([d, o, d])
        c.eq(len(rs), 3, 'list-length')
        r = rs[0]
        c.check(key(rs[2]) == key(r), 'list-order')
        c.eq(key(rs[1]), key(rw(o)), 'list-order')
    else:
        r = rw(d)
    c.eq(key(d), k0, 'input-altered')
    e = typing_error(r)
    c.check(e is None, 'cups-ill-typed', lambda: f'{e}: {d!r} -> {r!r}')
    c.eq((flat(r.dom), flat(r.cod)), (flat(d.dom), flat(d.cod)),
         'cups-type')
    c.eq(content(r), content(d), 'cups-words', f'{d!r} -> {r!r}')
    a, b = ncups(d), ncups(r)
    if a:
        c.sig(k0)
    c.check(b <= a, 'cups-more', f'{a} -> {b}')
    if b < a:
        c.ev('cups_fewer')
    if any(own for own in self_cups(d)):
        c.ev('selfcup')
    I = Interp(c.int(0, 5), dims={'n': 2, 's': 2, 'p': 2})
    try:
        t0, t1 = I(d, limit=2 ** 18), I(r, limit=2 ** 18)
    except TooBig:
        c.ev('too_big')
        return
    c.ev('cups_meaning')
    if a > 2:
        c.ev('several_words_cup')
    c.close(t1, t0, 'cups-meaning', f'{d!r} -> {r!r}')
    c.sample(d)


def mixed_nest(c):
    """Words joined by nested cups of both kinds, with open wires around."""
    c.ev('mixed_nest')
    k = c.int(2, 4)
    left, right, kinds = [], [], []
    for _ in range(k):
        a, z = c.choice(['n', 'n', 's']), c.int(-1, 1)
        rev = c.p(.5)
        left.append((a, z))
        right.insert(0, (a, z - 1 if rev else z + 1))
        kinds.append(rev)

    def cut(ws):
        if len(ws) > 1 and c.p(.4):
            i = c.int(1, len(ws) - 1)
            return [ws[:i], ws[i:]]
        return [ws]

    outer = list(flat(rand_ty(c, 0, 1))) if c.p(.3) else []
    tail = list(flat(rand_ty(c, 0, 1))) if c.p(.3) else []
    parts = cut(outer + left) + cut(right + tail)
    at = c.int(0, len(parts) - 1) if c.p(.3) else None
    cur, layers = [], []
    if at is not None:      # the wires of one come from outside
        c.ev('with_domain')
        cur = list(parts[at])
    dom, n = list(cur), 0
    for j, t in enumerate(parts):
        if j != at:
            back = cur[n:]
            layers.append(layer(mk(cur[:n]), G.Word(c.choice(VOCAB), mk(t)),
                                mk(back)))
            cur[n:n] = t
        n += len(t)
    i = len(outer) + k - 1
    for rev in kinds[::-1]:
        cup = G.Cup(mk(cur[i:i + 1]), mk(cur[i + 1:i + 2]), rev)
        layers.append(layer(mk(cur[:i]), cup, mk(cur[i + 2:])))
        del cur[i:i + 2]
        i -= 1
    return G.Diagram(dom=mk(dom), cod=mk(cur), layers=layers)


def wide(c):
    """A chain n  n.r s n.l  n ... with deep nestings of multi-wire cups."""
    words, n = [], c.int(2, 4)
    t = list(flat(rand_ty(c, 1, 3)))
    words.append(G.Word(c.choice(VOCAB), mk(t)))
    for _ in range(n - 1):
        new = [(a, z + 1) for a, z in reversed(t)]
        t = list(flat(rand_ty(c, 1, 3)))
        words.append(G.Word(c.choice(VOCAB), mk(new + t)))
    if c.p(.5):     # the same towards the left
        new = [(a, z - 1) for a, z in reversed(t)]
        t2 = list(flat(rand_ty(c, 0, 2)))
        words[-1] = G.Word(words[-1].name, mk(list(flat(words[-1].cod))))
        words.append(G.Word(c.choice(VOCAB),
                            mk([(a, z + 1) for a, z in reversed(t)] + t2)))
    layers, cur = words_layers(words)
    more, cur = reduce_planar(c, cur)
    return G.Diagram(dom=G.Ty(), cod=mk(cur), layers=layers + more)


def self_cups(d):
    """For each cup of a words-then-cups diagram: within one word?"""
    cur, k = [None] * len(flat(d.dom)), 0
    for lay in d.layers:
        i, b = len(flat(lay.left)), lay.box
        if isinstance(b, G.Cup):
            yield cur[i] is not None and cur[i] == cur[i + 1]
        new = ([k] if isinstance(b, G.Word) else [None]) * len(flat(b.cod))
        if isinstance(b, G.Swap):
            new = [cur[i + 1], cur[i]]
        cur[i:i + len(flat(b.dom))] = new
        k += 1


# ---- swaps ---------------------------------------------------------------
def expected_swapless(d):
    """The documented procedure on our own data: swaps exchange the types at
    the two wire positions; cups inside one word vanish with their wires;
    words left without wires join the next word (the last joins the
    previous)."""
    words, types, owner = [], [], []
    for lay in d.layers:
        if isinstance(lay.box, G.Word):
            for t in flat(lay.box.cod):
                types.append(t)
                owner.append(len(words))
            words.append(lay.box.name)
    scan = list(range(len(types)))
    pairs = []
    for lay in d.layers:
        i = len(flat(lay.left))
        if isinstance(lay.box, G.Swap):
            a, b = scan[i], scan[i + 1]
            types[a], types[b] = types[b], types[a]
        elif isinstance(lay.box, G.Cup):
            pairs.append((scan[i], scan[i + 1]))
            del scan[i:i + 2]
    gone = {x for p in pairs if owner[p[0]] == owner[p[1]] for x in p}
    out, where, pending, joined_last = [], {}, [], False
    for w, name in enumerate(words):
        wires = [j for j in range(len(types)) if owner[j] == w]
        kept = [j for j in wires if j not in gone]
        pending.append(name)
        if kept or not wires:
            for n, j in enumerate(kept):
                where[j] = (len(out), n)
            out.append([' '.join(pending), tuple(types[j] for j in kept)])
            pending = []
    merged = any(' ' in x[0] for x in out)
    if pending:
        joined_last = True
        if out:
            out[-1][0] += ' ' + ' '.join(pending)
        else:
            out.append([' '.join(pending), ()])
    links = set()
    for a, b in pairs:
        if a not in gone:
            links.add(frozenset((('w',) + where[a], ('w',) + where[b])))
    for n, j in enumerate(scan):
        links.add(frozenset((('w',) + where[j], ('out', n))))
    return ([tuple(x) for x in out], links, len(gone), merged, joined_last)


def swaps_case(c):
    r = c.int(0, 9)
    if r < 7:
        c.ev('ccg_input')
        d = ccg_diagram(c, False, conj=c.p(.5), vocab=['w', 'v', 'u', 'x'])
    elif r < 8:
        d = ccg_diagram(c, True)
    else:
        d = sentence_diagram(c, max_words=4)
    c.note(repr(d))
    k0 = key(d)
    rw = RemoveSwapsRewriter()
    pre = d.is_pregroup
    kinds = ['w' if isinstance(x.box, G.Word) and not flat(x.right) else
             'm' if isinstance(x.box, (G.Cup, G.Swap)) else '?'
             for x in d.layers]
    own = (not flat(d.dom) and '?' not in kinds and kinds == sorted(
        kinds, reverse=True))
    if not own:
        # documented: only pregroup-form diagrams; anything else either
        # raises ValueError or keeps the promise
        c.ev('not_pregroup')
        try:
            r = rw(d)
        except ValueError:
            return
    else:
        c.check(pre, 'is-pregroup', repr(d))
        r = rw([d])[0] if c.p(.2) else rw(d)
    c.eq(key(d), k0, 'input-altered')
    e = typing_error(r)
    c.check(e is None, 'swaps-ill-typed', lambda: f'{e}: {d!r} -> {r!r}')
    c.eq((flat(r.dom), flat(r.cod)), ((), flat(d.cod)), 'swaps-type')
    c.check(not any(isinstance(b, G.Swap) for b in r.boxes), 'swaps-left')
    text = ' '.join(b.name for b in d.boxes if isinstance(b, G.Word))
    got = ' '.join(b.name for b in r.boxes if isinstance(b, G.Word))
    c.eq(got, text, 'swaps-words', f'{d!r} -> {r!r}')
    if not own:
        return
    sw = any(isinstance(b, G.Swap) for b in d.boxes)
    c.ev('swaps_present' if sw else 'swaps_none')
    words, links, gone, merged, last = expected_swapless(d)
    if sw:
        c.sig(k0)
    if gone:
        c.ev('detached')
    if merged:
        c.ev('word_merged')
    if last:
        c.ev('last_word_merged')
    if not gone and not sw:
        c.check(r == d, 'swaps-changed-nothing', f'{d!r} -> {r!r}')
    ws = [b for b in r.boxes if isinstance(b, G.Word)]
    c.eq([(b.name, flat(b.cod)) for b in ws], words, 'swaps-word-types',
         repr(d))
    c.eq(diagram_wiring(r, list(range(len(ws)))), links, 'swaps-wiring',
         repr(d))


# ---- codomains -----------------------------------------------------------
def unify_case(c):
    out = None if c.p(.3) else rand_ty(c, 0, 3)
    rw = UnifyCodomainRewriter() if out is None else \
        UnifyCodomainRewriter(out)
    want = (('s', 0),) if out is None else flat(out)
    ds = []
    for _ in range(c.int(1, 4)):
        k = c.int(0, 3)
        if k == 0:
            d = sentence_diagram(c, swaps=c.p(.3))
        elif k == 1:
            d = rand_diagram(c)
        elif k == 2:
            d = ccg_diagram(c, False)
        else:
            t = mk(want)
            d = G.Word('w', t) @ G.Word('v', mk([('n', 0)])) \
                >> G.Id(t) @ G.Box('del', mk([('n', 0)]), G.Ty())
        ds.append(d)
    if c.p(.5):
        c.ev('unify_list')
        rs = rw(ds)
    else:
        rs = [rw(d) for d in ds]
    c.eq(len(rs), len(ds), 'unify-list')
    for d, r in zip(ds, rs):
        c.note(f'to {want}: {d!r}')
        e = typing_error(r)
        c.check(e is None, 'unify-ill-typed', e)
        c.eq((flat(r.dom), flat(r.cod)), (flat(d.dom), want), 'unify-type')
        if flat(d.cod) == want:
            c.ev('unify_same')
            c.check(r == d and key(r) == key(d), 'unify-changed')
        else:
            c.ev('unify_match')
            c.sig('unify', key(d), want)
            c.eq(key(r)[3][:-1], key(d)[3], 'unify-prefix')
            b = r.layers[-1]
            c.eq((flat(b.left), flat(b.right), flat(b.box.dom),
                  flat(b.box.cod)), ((), (), flat(d.cod), want),
                 'unify-box')
            c.check(type(b.box) is G.Box, 'unify-box-kind')
        c.eq(rw.matches(d), flat(d.cod) != want, 'unify-matches')
    # equal types give the same box, different types different ones
    a, b = rw(ds[0]), rw(ds[-1])
    if flat(ds[0].cod) != want and flat(ds[-1].cod) != want:
        c.eq(a.boxes[-1] == b.boxes[-1],
             flat(ds[0].cod) == flat(ds[-1].cod), 'unify-box-identity')


FAMILIES = [
    Family('cups', cups_case, 1500),
    Family('swaps', swaps_case, 2500),
    Family('unify', unify_case, 400),
]
