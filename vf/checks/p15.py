"""P15 Pregroup trees and pregroup diagrams convert into each other."""
import contextlib
import io
import itertools

from lambeq.backend import grammar as G
from lambeq.text2diagram.pregroup_tree import (PregroupTreeNode,
                                               PregroupTreeNodeError)
from lambeq.text2diagram.pregroup_tree_converter import (diagram2tree,
                                                         generate_tree,
                                                         remove_cycles,
                                                         tree2diagram)

from vf import ccg
from vf.core import Family
from vf.gen import flat, mk
from vf.sem import rotate_seq, typing_error

RULE = 'distinct (family, head assignment, type widths) combinations'
REQUIRED = ['projective', 'crossing', 'multi_wire', 'repeated', 'round_trip',
            'swapped', 'wide_root', 'cyclic', 'broken', 'self_cycle',
            'merged', 'not_merged', 'generated', 'bad_parent', 'self_parent',
            'cycle_input', 'many_roots', 'depth', 'subtree', 'two_parents',
            'aux_pattern', 'wrong_tokens',
            'create_swap', 'create_refused', 'capped', 'caps', 'capped_root',
            'capped_swap', 'unequal_word', 'unequal_typ', 'unequal_drop']
ATOMS = 'nspq'
NRS = (('n', 1), ('s', 0))


def adj(t, by):
    """The right (1) or left (-1) adjoint of a flat type."""
    return rotate_seq(t, by)


def rand_typ(c, k):
    return tuple((c.choice(ATOMS), c.choice([0, 0, 0, 1, -1, 2]))
                 for _ in range(k))


def heads(c, n, projective):
    root = c.int(0, n - 1)
    par = [-1] * n
    if not projective:
        order = [i for i in range(n) if i != root]
        c.rng.shuffle(order)
        done = [root]
        for i in order:
            par[i] = c.choice(done)
            done.append(i)
        return root, par

    def forest(lo, hi, p):
        while lo < hi:
            mid = c.int(lo + 1, hi)
            k = c.int(lo, mid - 1)
            par[k] = p
            forest(lo, k, k)
            forest(k + 1, mid, k)
            lo = mid
    forest(0, root, root)
    forest(root + 1, n, root)
    return root, par


def crossing(par):
    arcs = [(min(i, p), max(i, p)) for i, p in enumerate(par) if p >= 0]
    r = par.index(-1)
    return (any(a < x < b < y for a, b in arcs for x, y in arcs)
            or any(a < r < b for a, b in arcs))


def rand_tokens(c, n):
    if c.p(.3):
        base = ['a', 'b', 'a b', 'ß', '']
        return [c.choice(base[:c.int(1, 5)]) for _ in range(n)]
    return [f'w{i}' for i in range(n)]


def build(c, toks, par, typs):
    """The tree, with children in random order."""
    nodes = [None] * len(toks)

    def make(i):
        kids = [j for j, p in enumerate(par) if p == i]
        if c.p(.5):
            c.rng.shuffle(kids)
        nodes[i] = PregroupTreeNode(word=toks[i], ind=i, typ=mk(typs[i]),
                                    children=[make(j) for j in kids])
        return nodes[i]
    return make(par.index(-1)), nodes


def shape(t):
    """A plain copy of a tree, children sorted by position."""
    return (t.word, t.ind, flat(t.typ), sorted(shape(k) for k in t.children))


def parents_ok(t):
    return all(k.parent is t and parents_ok(k) for k in t.children)


def links(d):
    """Words in order, and for each cup and output the wires
    (word number, position in the word's type)."""
    words, cur, cups = [], [], []
    swaps = 0
    for lay in d.layers:
        i, b = len(flat(lay.left)), lay.box
        if isinstance(b, G.Word):
            k = len(words)
            words.append(b)
            cur[i:i] = [(k, j) for j in range(len(flat(b.cod)))]
        elif isinstance(b, G.Cup):
            cups.append(tuple(cur[i:i + 2]))
            cur[i:i + 2] = []
        elif isinstance(b, G.Swap):
            swaps += 1
            cur[i], cur[i + 1] = cur[i + 1], cur[i]
        else:
            return None
    return words, cups, cur, swaps


def expected(par, typs):
    """For each word, its links (other word, flat type), nearest to the
    left first, then free wires, then farthest to the right first."""
    n = len(par)
    out = []
    for i in range(n):
        left, right = [], []
        for j in range(n):
            if par[j] == i:
                (left if j < i else right).append(
                    (j, adj(typs[j], 1 if j < i else -1)))
        p = par[i]
        if p >= 0:
            (left if p < i else right).append((p, typs[i]))
        mid = [(-1, typs[i])] if p < 0 else []
        out.append(sorted(left, reverse=True) + mid
                   + sorted(right, reverse=True))
    return out


def aux(comps):
    """Words whose two links the converter may put in the other order (the
    auxiliary-verb pattern)."""
    out = []
    for i, comp in enumerate(comps[:-1]):
        if (len(comp) == 2 and comp[0][0] > i and comp[1] == (i + 1, NRS)):
            out.append(i)
    return out


def wires(comp):
    """(other word, wire within the link) for each wire of a word."""
    return [(o, k, len(t)) for o, t in comp for k in range(len(t))]


def wrong_links(words, cups, out, root, comps, free):
    """What is wrong with the words' types and the wiring, if anything."""
    for i, w in enumerate(words):
        want = sum((t for _, t in comps[i]), ())
        if flat(w.cod) != want:
            return 'word-type', (i, flat(w.cod), want)
    ends = [wires(k) for k in comps]
    for a, b in cups:
        o, k, m = ends[a[0]][a[1]]
        o2, k2, _ = ends[b[0]][b[1]]
        if (o, o2, k2) != (b[0], a[0], m - 1 - k):
            return 'cup-between', (a, b, ends)
    got = [(a[0],) + ends[a[0]][a[1]][:2] for a in out]
    if got != [(root, -1, k) for k in range(free)]:
        return 'free-wire', got


def judge(c, d, toks, par, typs):
    err = typing_error(d)
    c.check(err is None, 'ill-typed', err)
    got = links(d)
    c.check(got is not None, 'foreign-box', [type(b).__name__
                                             for b in d.boxes][:20])
    words, cups, out, swaps = got
    c.eq([w.name for w in words], toks, 'words')
    c.eq(flat(d.dom), (), 'domain')
    root = par.index(-1)
    c.eq(flat(d.cod), typs[root], 'codomain')
    comps = expected(par, typs)
    free = aux(comps)
    c.ev('aux_pattern', len(free))
    first = None
    for turned in itertools.product([False, True], repeat=len(free)):
        alt = [k[::-1] if (i in free and turned[free.index(i)]) else k
               for i, k in enumerate(comps)]
        bad = wrong_links(words, cups, out, root, alt, len(typs[root]))
        first = first or bad
        if not bad:
            break
    else:
        c.fail(*first)
    c.eq(len(cups), sum(len(t) for i, t in enumerate(typs) if i != root),
         'cups')
    if swaps:
        c.ev('swapped')


def rand_tree(c, n=None, empty=False):
    n = n or c.choice([1, 2, 3, 4, 5, 6, 7, 9])
    proj = c.p(.45)
    root, par = heads(c, n, proj)
    multi = c.p(.5)
    toks = rand_tokens(c, n)
    one = c.p(.15)
    typs = [((('n', 0),) if one else
             rand_typ(c, c.choice([1, 1, 2, 3]) if multi else 1))
            for _ in range(n)]
    if c.p(.15):
        for i in range(n):
            if c.p(.6):
                typs[i] = c.choice([NRS, (('s', 1), ('n', 2)), (('s', 0),)])
    if empty and c.p(.3):
        typs[c.int(0, n - 1)] = ()
    tree, nodes = build(c, toks, par, typs)
    c.ev('crossing' if crossing(par) else 'projective')
    if multi:
        c.ev('multi_wire')
    if len(set(toks)) < n:
        c.ev('repeated')
    if len(typs[root]) > 1:
        c.ev('wide_root')
    return tree, nodes, toks, par, typs


def fam_convert(c):
    tree, nodes, toks, par, typs = rand_tree(c)
    before = shape(tree)
    c.note(tokens=toks, parents=par, types=typs)
    c.sig(('t', tuple(par), tuple(map(len, typs))))
    d = tree2diagram(tree, list(toks)) if c.p(.5) else tree.to_diagram(
        list(toks))
    judge(c, d, toks, par, typs)
    c.eq(shape(tree), before, 'tree-altered')
    flag = c.p(.5)
    back = diagram2tree(d, break_cycles=flag) if c.p(.5) else (
        d.to_pregroup_tree(break_cycles=flag)
        if hasattr(d, 'to_pregroup_tree') else diagram2tree(d, flag))
    c.eq(shape(back), before, 'round-trip')
    c.check(back == tree and tree == back, 'round-trip-unequal', repr(back))
    c.check(parents_ok(back), 'parent-links')
    c.ev('round_trip')
    d2 = tree2diagram(back, list(toks))
    c.check(d2 == d, 'second-conversion')
    if c.p(.2):
        w = tree2diagram(tree, list(toks), no_morphisms=True)
        c.eq([(b.name, flat(b.cod)) for b in w.boxes],
             [(b.name, flat(b.cod)) for b in d.boxes
              if isinstance(b, G.Word)], 'words-only')


def fam_empty_types(c):
    """Nodes may be wireless (that is how broken cycles are marked)."""
    tree, nodes, toks, par, typs = rand_tree(c, empty=True)
    c.note(tokens=toks, parents=par, types=typs)
    c.sig(('e', tuple(par), tuple(map(len, typs))))
    judge(c, tree.to_diagram(list(toks)), toks, par, typs)
    # too few tokens: the documented error, nothing else
    if c.p(.3) and len(toks) > 1:
        c.ev('wrong_tokens')
        c.raises(PregroupTreeNodeError,
                 lambda: tree.to_diagram(toks[:-1]), 'short-tokens')


def linkage(c):
    """A planar pregroup diagram with connected words, cycles allowed."""
    for _ in range(400):
        n = c.int(2, 6)
        seq = []
        for part in range(2):
            todo, open_ = 2 * c.int(0, 2 * n), 0
            while todo:
                if open_ == 0 or (open_ < todo and c.p(.5)):
                    seq.append(1)
                    open_ += 1
                else:
                    seq.append(-1)
                    open_ -= 1
                todo -= 1
            if part == 0:
                seq += [0] * c.choice([1, 1, 2])
        m = len(seq)
        if m < n:
            continue
        cuts = sorted(c.rng.sample(range(1, m), n - 1))
        own = [sum(x <= i for x in cuts) for i in range(m)]
        typ, cups, st = [None] * m, [], []
        for i, x in enumerate(seq):
            if x == -1:
                j = st.pop()
                typ[j] = rand_typ(c, 1)[0]
                typ[i] = adj((typ[j],), 1)[0]
                cups.append((j, i))
            elif x == 1:
                st.append(i)
            else:
                typ[i] = rand_typ(c, 1)[0]
        free = [i for i, x in enumerate(seq) if x == 0]
        if len({own[i] for i in free}) > 1 or any(
                own[a] == own[b] for a, b in cups):
            continue
        group = list(range(n))
        for a, b in cups:
            x, y = group[own[a]], group[own[b]]
            group = [x if g == y else g for g in group]
        if len(set(group)) > 1:
            continue
        return n, own, typ, cups, free
    c.skip()


def fam_diagram(c):
    n, own, typ, cups, free = linkage(c)
    pairs = {(own[a], own[b]) for a, b in cups}
    if len(pairs) < n and c.p(.8):
        n, own, typ, cups, free = linkage(c)
        pairs = {(own[a], own[b]) for a, b in cups}
    toks = rand_tokens(c, n)
    words = [G.Word(toks[w], mk(tuple(t for i, t in enumerate(typ)
                                      if own[i] == w))) for w in range(n)]
    d = G.Diagram.create_pregroup_diagram(
        words, [(G.Cup, a, b)
                for a, b in sorted(cups, key=lambda x: x[1] - x[0])])
    c.note(tokens=toks, types=[flat(w.cod) for w in words], cups=cups)
    c.sig(('d', tuple(sorted(pairs)), tuple(own)))
    cyclic = len(pairs) > n - 1
    t = diagram2tree(d)
    nodes = t._get_nodes_flat() if hasattr(t, '_get_nodes_flat') else [
        x for xs in t.get_nodes() for x in xs]
    c.eq((t.word, t.ind), (toks[own[free[0]]], own[free[0]]), 'root')
    c.eq(flat(t.typ), tuple(typ[i] for i in free), 'root-type')
    # every wire of every cup is in exactly one parent-child relation
    seen = sorted((min(x.ind, x.parent.ind), max(x.ind, x.parent.ind))
                  for x in nodes if x.parent is not None
                  for _ in flat(x.typ))
    c.eq(seen, sorted((own[a], own[b]) for a, b in cups), 'relations')
    c.eq({x.ind: x.word for x in nodes}, dict(enumerate(toks)), 'tokens')
    c.check(parents_ok(t), 'parent-links')
    if cyclic:
        c.ev('cyclic')
    t = diagram2tree(d, break_cycles=True)
    nodes = [x for xs in t.get_nodes() for x in xs]
    c.eq([x.ind for x in nodes], list(range(n)), 'after-breaking')
    c.eq([x.word for x in nodes], toks, 'words-after-breaking')
    c.check(parents_ok(t), 'parent-links-after-breaking')
    for x in nodes:
        if x.parent is not None:
            c.check(tuple(sorted((x.ind, x.parent.ind))) in pairs,
                    'new-relation', repr(x))
    c.check(typing_error(tree2diagram(t, toks)) is None, 'tree-ill-typed')
    if cyclic:
        c.ev('broken')


def fam_caps(c):
    """Diagrams of CCG derivations: words, then cups, caps and swaps."""
    for _ in range(60):
        d = ccg.derivation(c, unary=False, unique=True, leaves=c.int(2, 7),
                           conj=c.p(.3), punct=False)
        g = d.tree(rules=True).to_diagram()
        words = [b for b in g.boxes if isinstance(b, G.Word)]
        caps = sum(isinstance(b, G.Cap) for b in g.boxes)
        if len(words) < 2 or (not caps and c.p(.8)):
            continue
        pairs = [sorted(p) for p in ccg.diagram_wiring(g, range(len(words)))]
        free = {a[1]: b for a, b in pairs if a[0] == 'out'}
        own = {w[1] for w in free.values()}
        cups = [(a, b) for a, b in pairs if a[0] == 'w']
        if (len(own) == 1 and len(free) == len(flat(g.cod))
                and all(w[0] == 'w' for w in free.values())
                and all(a[1] != b[1] for a, b in cups)):
            break
    else:
        c.skip()
    toks = [w.name for w in words]
    c.note(derivation=repr(d))
    c.sig(('caps', tuple(sorted(map(tuple, pairs)))))
    before = repr(g)
    t = diagram2tree(g)
    nodes = [x for xs in t.get_nodes() for x in xs]
    root = own.pop()
    c.eq((t.word, t.ind), (toks[root], root), 'capped-root')
    c.eq(flat(t.typ), flat(g.cod), 'capped-root-type')
    typs = [flat(w.cod) for w in words]
    links = sorted((a[1], b[1]) for a, b in cups)
    c.eq(sorted((min(x.ind, x.parent.ind), max(x.ind, x.parent.ind))
                for x in nodes if x.parent is not None
                for _ in flat(x.typ)), links, 'capped-relations')
    # a child is typed by its own wires of these relations
    for x in nodes:
        if x.parent is not None:
            ends = [q for p in cups for q in (p, p[::-1])
                    if (q[0][1], q[1][1]) == (x.ind, x.parent.ind)]
            c.eq(sorted(flat(x.typ)),
                 sorted(typs[q[0][1]][q[0][2]] for q in ends),
                 'capped-types')
    c.eq({x.ind: x.word for x in nodes}, dict(enumerate(toks)),
         'capped-tokens')
    c.check(parents_ok(t), 'capped-parent-links')
    c.eq(repr(g), before, 'diagram-altered')
    t = diagram2tree(g, break_cycles=True)
    c.eq([x.ind for xs in t.get_nodes() for x in xs], list(range(len(toks))),
         'capped-after-breaking')
    c.ev('capped')
    c.ev('caps', min(caps, 5))
    if len(free) > 1 and caps:
        c.ev('capped_root')
    if any(isinstance(b, G.Swap) for b in g.boxes):
        c.ev('capped_swap')


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        f()
    return out.getvalue()


def fam_edits(c):
    tree, nodes, toks, par, typs = rand_tree(c)
    n = len(toks)
    c.note(tokens=toks, parents=par, types=typs)
    c.sig(('edit', tuple(par)))
    depth = [0] * n
    for i in range(n):
        j = i
        while par[j] >= 0:
            j, depth[i] = par[j], depth[i] + 1
    # queries
    c.eq(tree.get_words(), toks, 'get_words')
    c.eq(tree.get_parents(), [[p] for p in par], 'get_parents')
    c.eq(tree.get_types(), [[str(mk(t))] for t in typs], 'get_types')
    c.eq([flat(t) for ts in tree.get_types(as_str=False) for t in ts], typs,
         'get_types-ty')
    c.eq(tree.get_word_indices(), list(range(n)), 'get_word_indices')
    c.eq(tree.height, 1 + max(depth), 'height')
    drawn = quiet(tree.draw).strip('\n').split('\n')
    if not any('\n' in t for t in toks):
        c.eq(len(drawn), n, 'drawn-lines')
    for i in range(n):
        c.eq(nodes[i].get_depth(), depth[i], 'depth')
        c.check(nodes[i].get_root() is tree, 'get_root')
    c.ev('depth')
    i = c.int(0, n - 1)
    sub = [j for j in range(n) if i in chain(par, j)]
    c.eq(nodes[i].get_word_indices(), sub, 'subtree-indices')
    c.eq(nodes[i].get_words(), [toks[j] for j in sub], 'subtree-words')
    c.ev('subtree')
    for j in range(n):
        want = depth[j] - depth[i] if i in chain(par, j) else -1
        c.eq(nodes[j].get_depth(nodes[i]), want, 'depth-in-subtree')
    # equality
    other, there = build(c, toks, par, typs)
    c.check(tree == other and other == tree, 'equal-trees')
    k = c.int(0, n - 1)
    how = c.choice(['word', 'typ', 'drop'] if par[k] >= 0
                   else ['word', 'typ'])
    if how == 'word':
        there[k].word += '!'
    elif how == 'typ':
        there[k].typ = there[k].typ @ mk(typs[k] or rand_typ(c, 1))
    else:
        there[par[k]].children = [x for x in there[par[k]].children
                                  if x is not there[k]]
    c.check(tree != other and other != tree, 'unequal-trees', how)
    c.ev('unequal_' + how)
    # merging
    kids = [j for j in range(n) if par[j] == i]
    can = (len(kids) == 1 and typs[kids[0]] == typs[i]
           and abs(kids[0] - i) == 1)
    if not can:
        can_at = [a for a in range(n)
                  if [b for b in range(n) if par[b] == a] in ([a - 1],
                                                              [a + 1])]
        if can_at and c.p(.9):
            i = c.choice(can_at)
            j = par.index(i)
            typs[j] = typs[i]
            nodes[j].typ = nodes[i].typ
            kids, can = [j], True
    before = shape(tree)
    quiet(nodes[i].merge)
    if not can:
        c.ev('not_merged')
        c.eq(shape(tree), before, 'merge-refused')
    else:
        c.ev('merged')
        j = kids[0]
        lo = min(i, j)
        name = ' '.join(toks[x] for x in sorted((i, j)))

        def model(k):
            if k == i:
                below = [x for x in range(n) if par[x] == j]
                return (name, lo, typs[i], sorted(map(model, below)))
            return (toks[k], k, typs[k],
                    sorted(model(x) for x in range(n) if par[x] == k))
        c.eq(shape(tree), model(par.index(-1)), 'merge')
        c.check(parents_ok(tree), 'parent-links-after-merge')
    # self-cycles
    tree, nodes, toks, par, typs = rand_tree(c)
    before = shape(tree)
    for k, x in enumerate(nodes):
        for _ in range(c.choice([0, 0, 1, 2])):
            y = PregroupTreeNode(word=x.word, ind=k, typ=mk(rand_typ(c, 1)))
            x.children.insert(c.int(0, len(x.children)), y)
            y.parent = x
            c.ev('self_cycle')
    tree.remove_self_cycles()
    c.eq(shape(tree), before, 'self-cycles')
    c.check(parents_ok(tree), 'parent-links-after-self-cycles')


def chain(par, j):
    out = [j]
    while par[j] >= 0:
        j = par[j]
        out.append(j)
    return out


def fam_break(c):
    """Trees with extra leaf copies of words, then broken."""
    tree, nodes, toks, par, typs = rand_tree(c, n=c.choice(
        [2, 3, 4, 5, 6, 7, 8, 10]))
    n = len(toks)
    often = c.choice([.2, .4, .9])
    copies = {i: [(nodes[i], len(chain(par, i)) - 1)] for i in range(n)}
    for i in range(n):
        if par[i] < 0 or nodes[i].children:
            continue
        for p in range(n):
            if p in par and p not in (i, par[i]) and c.p(often):
                x = PregroupTreeNode(word=toks[i], ind=i,
                                     typ=mk(rand_typ(c, 1)))
                copies[i].append((x, len(chain(par, p))))
                nodes[p].children.append(x)
                x.parent = nodes[p]
                c.ev('two_parents')
    c.note(tokens=toks, parents=par, types=typs,
           copies={i: [k[1] for k in v] for i, v in copies.items()})
    c.sig(('b', tuple(par), tuple(len(v) for v in copies.values())))
    remove_cycles(tree)
    left = [x for xs in tree.get_nodes() for x in xs]
    c.eq([x.ind for x in left], list(range(n)), 'left')
    c.check(parents_ok(tree), 'parent-links')
    for i, x in enumerate(left):
        best = max(k for _, k in copies[i])
        c.check(any(x is y and k == best for y, k in copies[i]),
                'not-the-deepest', i)


def fam_generate(c):
    n = c.choice([1, 2, 3, 4, 5, 6, 8])
    toks = rand_tokens(c, n)
    typs = [rand_typ(c, c.choice([1, 1, 2, 3])) for _ in range(n)]
    strs = [[' @ '.join(str(mk((a,))) for a in t)] for t in typs]
    kind = c.choice(['tree', 'tree', 'bad', 'self', 'any', 'any', 'dag'])
    if kind == 'tree' or kind == 'dag':
        root, par = heads(c, n, c.p(.3))
    else:
        par = [c.choice([j for j in range(-1, n) if j != i])
               for i in range(n)]
        if kind == 'bad':
            par[c.int(0, n - 1)] = c.choice([n, n + 1, -2, -5, 10 ** 6])
        if kind == 'self':
            i = c.int(0, n - 1)
            par[i] = i
    c.note(tokens=toks, types=strs, parents=par)
    c.sig(('g', kind, tuple(par)))
    arg = [[p] for p in par]
    extra = None
    if kind == 'dag':
        # one leaf gets a second parent
        leaves = [i for i in range(n) if i not in par and par[i] >= 0]
        if leaves:
            i = c.choice(leaves)
            ps = [j for j in range(n) if j not in (i, par[i])]
            if ps:
                p = c.choice(ps)
                t = rand_typ(c, 1)
                strs[i].append(str(mk(t)))
                arg[i].append(p)
                extra = (i, p, t)
    args = (list(toks), [list(s) for s in strs], [list(p) for p in arg])
    if kind in ('bad', 'self'):
        c.ev('bad_parent' if kind == 'bad' else 'self_parent')
        c.raises(ValueError, lambda: generate_tree(*args), kind)
        return
    roots, nodes = generate_tree(*args)
    c.eq(args, (toks, strs, arg), 'arguments-altered')
    c.eq(len(nodes), n, 'nodes')
    if kind in ('tree', 'dag'):
        c.ev('generated')
        c.eq(len(roots), 1, 'roots')

        def model(k):
            below = [model(x) for x in range(n) if par[x] == k]
            if extra and extra[1] == k:
                below.append((toks[extra[0]], extra[0], extra[2], []))
            return (toks[k], k, typs[k], sorted(below))
        c.eq(shape(roots[0]), model(par.index(-1)), 'tree')
        c.check(parents_ok(roots[0]), 'parent-links')
        if not extra:
            t = roots[0]
            again, _ = generate_tree(t.get_words(), t.get_types(),
                                     t.get_parents())
            c.check(len(again) == 1 and again[0] == t, 're-generated')
        return
    loops = [i for i in range(n) if looping(par, i)]
    tops = [i for i in range(n) if par[i] < 0]
    cyc = {cycle(par, i) for i in loops}
    c.ev('cycle_input' if cyc else 'generated')
    if len(tops) + len(cyc) > 1:
        c.ev('many_roots')
    got = []
    for t in roots:
        todo, steps = [t], 0
        while todo:
            x = todo.pop()
            got.append(x)
            todo += x.children
            steps += 1
            c.check(steps < 10 * n + 10, 'tree-loops')
    c.eq({(x.ind, x.word) for x in got}, set(enumerate(toks)),
         'tokens-lost')
    on_cycle = set().union(*cyc) if cyc else set()
    for i in range(n):
        if i in on_cycle:
            continue
        mine = [x for x in got if x.ind == i]
        c.eq(len(mine), 1, 'copies')
        c.eq(flat(mine[0].typ), typs[i], 'type')
        c.eq(mine[0].parent.ind if mine[0].parent else -1, par[i], 'parent')
    c.eq(sorted(r.ind for r in roots if r.ind not in on_cycle), tops,
         'tops')
    if not cyc:
        c.eq(len(roots), len(tops), 'root-count')


def fam_create(c):
    """create_pregroup_diagram from lists of cups and swaps, whose indices
    are places among the wires of the words."""
    n = c.int(1, 5)
    typs = [rand_typ(c, c.choice([0, 1, 1, 2, 3])) for _ in range(n)]
    for _ in range(c.int(0, 4)):
        i = c.int(0, n - 1)
        if typs[i]:
            t = adj((c.choice(typs[i]),), 1)
            j = c.int(i, n - 1)
            typs[j] = typs[j] + t
    toks = rand_tokens(c, n)
    seq = list(sum(typs, ()))
    live = list(range(len(seq)))
    steps = []
    for _ in range(c.int(0, 8)):
        moves = [(a, b) for a, b in zip(live, live[1:])]
        cups = [(a, b) for a, b in moves if seq[b] == (seq[a][0],
                                                       seq[a][1] + 1)]
        if not moves:
            break
        if cups and c.p(.6):
            a, b = c.choice(cups)
            steps.append((G.Cup, a, b))
            live = [x for x in live if x not in (a, b)]
        else:
            a, b = c.choice(moves)
            steps.append((G.Swap, a, b))
            seq[a], seq[b] = seq[b], seq[a]
            c.ev('create_swap')
    c.note(types=typs, steps=steps)
    c.sig(('c', tuple(map(len, typs)), tuple(s[1:] for s in steps)))
    words = [G.Word(w, mk(t)) for w, t in zip(toks, typs)]
    given = list(steps)
    d = G.Diagram.create_pregroup_diagram(words, given)
    c.eq(given, steps, 'arguments-altered')
    c.check(typing_error(d) is None, 'created-ill-typed')
    c.eq(d.boxes[:n], words, 'created-words')
    c.eq(flat(d.cod), tuple(seq[i] for i in live), 'created-codomain')
    # the same steps, followed wire by wire
    place, want = list(range(len(sum(typs, ())))), []
    for kind, a, b in steps:
        want.append((kind.__name__, sum(x < a for x in place)))
        if kind is G.Cup:
            place = [x for x in place if x not in (a, b)]
    got = [(type(lay.box).__name__, len(flat(lay.left)))
           for lay in d.layers[n:]]
    c.eq(got, want, 'created-morphisms')
    if live and c.p(.5):
        a = c.choice([x for x in live])
        after = [x for x in live if x > a]
        if after and seq[after[0]] != (seq[a][0], seq[a][1] + 1) and \
                seq[a] != (seq[after[0]][0], seq[after[0]][1] + 1):
            c.ev('create_refused')
            c.raises(ValueError, lambda: G.Diagram.create_pregroup_diagram(
                words, steps + [(G.Cup, a, after[0])]), 'not-adjoint')


def looping(par, i):
    for _ in range(len(par) + 1):
        i = par[i]
        if i < 0:
            return False
    return True


def cycle(par, i):
    for _ in range(len(par)):
        i = par[i]
    out = set()
    while i not in out:
        out.add(i)
        i = par[i]
    return frozenset(out)


FAMILIES = [
    Family('convert', fam_convert, 900),
    Family('empty_types', fam_empty_types, 200),
    Family('diagram', fam_diagram, 300),
    Family('caps', fam_caps, 300),
    Family('edits', fam_edits, 400),
    Family('break', fam_break, 300),
    Family('create', fam_create, 400),
    Family('generate', fam_generate, 900),
]
