"""Reading drawings back: the picture is taken apart into polygons, strokes,
dots and texts, and the diagram shown is worked out from where they meet."""
import re

import matplotlib
matplotlib.use('Agg')
import numpy as np
from matplotlib.patches import PathPatch
from matplotlib.path import Path

from lambeq.backend import grammar as G
from lambeq.backend import quantum as Q

EPS = 1e-6


class Unreadable(Exception):
    pass


class Picture:
    def __init__(self):
        self.polys = []         # [(x, y), ...]
        self.wires = []         # (source, target)
        self.dots = []          # (x, y, colour, shape)
        self.texts = []         # (text, x, y)


def of_axis(ax):
    """What matplotlib was told to draw."""
    p = Picture()
    for a in ax.patches:
        v = np.asarray(a.get_path().vertices, float)
        codes = a.get_path().codes
        if isinstance(a, PathPatch):
            if codes is not None and Path.CURVE3 in codes:
                p.wires.append((tuple(v[0]), tuple(v[-1])))
            else:
                p.polys.append([tuple(x) for x in v[:-1]])
    for col in ax.collections:
        shape = len(col.get_paths()[0].vertices)
        for x, y in np.asarray(col.get_offsets(), float):
            face = tuple(np.round(col.get_facecolors()[0], 3)) \
                if len(col.get_facecolors()) else None
            p.dots.append((float(x), float(y), face,
                           'plus' if shape < 8 or shape == 12 else 'circle'))
    for t in ax.texts:
        x, y = t.get_position()
        p.texts.append((t.get_text(), float(x), float(y)))
    return p


NODE = re.compile(r'\\node \[(.*?)\] \((\d+)\) at \((\S+), (\S+)\) '
                  r'\{(.*)\};\n?', re.S)
DRAW = re.compile(r'\\draw \[(.*)\] (.*);')


def of_tikz(source):
    """What a TikZ picture says."""
    p = Picture()
    source = '\n'.join(x for x in source.split('\n')
                       if not x.startswith('%'))
    if source.count('\\begin{tikzpicture}') != 1 \
            or source.count('\\end{tikzpicture}') != 1 \
            or source.count('\\begin{pgfonlayer}') != 3 \
            or source.count('\\end{pgfonlayer}') != 3:
        raise Unreadable('unbalanced TikZ environments')
    styles = set(re.findall(r'\\tikzstyle\{(.*?)\}=', source))
    body = source[source.index('\\begin{tikzpicture}'):]
    at = {}
    lines = body.split('\n')
    for line in lines:
        if line.startswith('\\node (0)'):
            continue
        if line.startswith('\\node '):
            m = NODE.fullmatch(line)
            if not m:
                raise Unreadable(f'TikZ node: {line}')
            opt, i, x, y, text = m.groups()
            if i in at:
                raise Unreadable(f'TikZ node {i} defined twice')
            at[i] = (float(x), float(y))
            if 'style=none' in opt:
                p.texts.append((text, *at[i]))
            elif opt.startswith(('circle', 'plus')) or 'style=' in opt:
                colour = ('white' if 'white' in opt else 'black')
                p.dots.append((*at[i], colour,
                               'plus' if 'plus' in opt else 'circle'))
        elif line.startswith('\\draw '):
            m = DRAW.fullmatch(line)
            if not m:
                raise Unreadable(f'TikZ edge: {line}')
            opt, path = m.groups()
            ids = re.findall(r'\((\d+)\.center\)', path)
            if path != ' to '.join(f'({i}.center)' for i in ids):
                raise Unreadable(f'TikZ path: {line}')
            if not set(ids) <= set(at):
                raise Unreadable(f'TikZ edge to a missing node: {line}')
            if len(ids) == 2:
                p.wires.append((at[ids[0]], at[ids[1]]))
            else:
                if ids[0] != ids[-1]:
                    raise Unreadable(f'TikZ polygon not closed: {line}')
                p.polys.append([at[i] for i in ids[:-1]])
        elif line.strip() and not line.startswith(('\\begin', '\\end')):
            raise Unreadable(f'TikZ: {line}')
    return p, styles


class Shape:
    """A polygon of the picture."""

    def __init__(self, points):
        xs, ys = [p[0] for p in points], [p[1] for p in points]
        self.left, self.right = min(xs), max(xs)
        self.low, self.high = min(ys), max(ys)
        self.area = (self.right - self.left) * (self.high - self.low)
        # flat sides, not slants
        self.name = None
        self.parent = None
        self.children = []
        self.ports = {'dom': [], 'cod': [], 'in': [], 'out': []}
        self.points = points

    def holds(self, x, y, eps=EPS):
        return (self.left - eps <= x <= self.right + eps
                and self.low - eps <= y <= self.high + eps)

    def inside(self, other):
        return (other.left - EPS <= self.left and self.right
                <= other.right + EPS and other.low - EPS <= self.low
                and self.high <= other.high + EPS
                and self.area < other.area)


def key(p):
    return (round(p[0], 5), round(p[1], 5))


def read(pic, names):
    """The structure shown: a canonical form of the diagram drawn."""
    shapes = [Shape(p) for p in pic.polys]
    # grounds are stacks of flat strokes
    flat_strokes = [w for w in pic.wires
                    if abs(w[0][1] - w[1][1]) < EPS
                    and abs(w[0][0] - w[1][0]) > EPS]
    dots = {}
    for x, y, colour, shape in pic.dots:
        dots.setdefault(key((x, y)), []).append(shape)
    links, ground = [], []
    for w in flat_strokes:
        if key(w[0]) in dots:
            links.append(w)
        else:
            ground.append(w)
    ground.sort(key=lambda w: -w[0][1])
    for w in ground:
        a, b = sorted([w[0], w[1]])
        for s in shapes:
            if s.name == 'ground' and s.left - EPS <= a[0] \
                    and b[0] <= s.right + EPS and 0 < s.high - a[1] < .3:
                break
        else:
            s = Shape([a, b, (b[0], b[1] - .2), (a[0], a[1] - .2)])
            s.name = 'ground'
            shapes.append(s)
    strokes = [w for w in pic.wires if w not in flat_strokes]
    marks = {key(w[0]): 'ctrl' for w in links}
    for at, kinds in dots.items():
        if 'plus' in kinds:
            if sorted(kinds) != ['circle', 'plus'] or at in marks:
                raise Unreadable(f'dots {kinds} at {at}')
            marks[at] = 'plus'
    # controls and targets cut the wires they are on
    for at in marks:
        on = [w for w in strokes if key((w[0][0], 0)) == key((w[1][0], 0))
              == key((at[0], 0)) and min(w[0][1], w[1][1]) + EPS < at[1]
              < max(w[0][1], w[1][1]) - EPS]
        if len(on) != 1:
            raise Unreadable(f'{marks[at]} {at} is on {len(on)} wires')
        strokes.remove(on[0])
        hi, lo = sorted(on[0], key=lambda p: -p[1])
        strokes += [(hi, at), (at, lo)]
    for s in shapes:
        around = [t for t in shapes if t is not s and s.inside(t)]
        if around:
            s.parent = min(around, key=lambda t: t.area)
            s.parent.children.append(s)
    for text, x, y in pic.texts:
        if text not in names:
            continue
        inside = [s for s in shapes if s.holds(x, y) and s.name is None]
        if not inside:
            raise Unreadable(f'the label {text} is in no box')
        min(inside, key=lambda s: s.area).name = text

    # the little picture in a measurement is not a wire
    real = []
    for a, b in strokes:
        if max(abs(a[0] - b[0]), abs(a[1] - b[1])) < .3:
            if any(s.left + EPS < min(a[0], b[0]) and max(a[0], b[0])
                   < s.right - EPS and s.low + EPS < min(a[1], b[1])
                   and max(a[1], b[1]) < s.high - EPS and not s.children
                   and s.high - s.low < .6
                   for s in shapes):
                continue
        real.append((a, b))
    strokes = real

    def region(x, y):
        inside = [s for s in shapes if s.holds(x, y)
                  and s.left + EPS < x < s.right - EPS
                  and s.low + EPS < y < s.high - EPS]
        return min(inside, key=lambda s: s.area, default=None)

    # where the strokes end
    meet = {}
    terminal = {}
    tops, bottoms = [], []
    for n, (a, b) in enumerate(strokes):
        if a[1] < b[1]:
            a, b = b, a
        for end, (x, y) in (('upper', a), ('lower', b)):
            hits = []
            for s in shapes:
                if not (s.left - EPS <= x <= s.right + EPS):
                    continue
                if abs(y - s.high) < EPS:
                    hits.append((s, 'dom' if end == 'lower' else 'in'))
                if abs(y - s.low) < EPS:
                    hits.append((s, 'cod' if end == 'upper' else 'out'))
            # strokes starting down from the top of a box belong inside it
            hits = [h for h in hits if h[1] in ('dom', 'cod')
                    or h[0].children or h[0].name is None]
            if len(hits) > 1:
                outer = [h for h in hits if h[1] in ('dom', 'cod')]
                hits = outer if len(outer) == 1 else hits
            if len(hits) > 1:
                raise Unreadable(f'the wire end {x, y} is on two boxes')
            if hits:
                s, side = hits[0]
                terminal[n, end] = hits[0]
                s.ports[side].append((x, n, end))
            else:
                meet.setdefault(key((x, y)), []).append(
                    (n, end, b if end == 'upper' else a))
    link = {}

    def join(a, b):
        link[a], link[b] = b, a
    spiders = []
    for at, ends in list(meet.items()):
        if at in dots:
            up = sorted((o[0], n, e) for n, e, o in ends if e == 'lower')
            down = sorted((o[0], n, e) for n, e, o in ends if e == 'upper')
            s = Shape([at, at])
            s.name = marks.get(at, 'spider')
            s.parent = region(*at)
            s.ports['dom'], s.ports['cod'] = up, down
            spiders.append(s)
            for _, n, e in up:
                terminal[n, e] = (s, 'dom')
            for _, n, e in down:
                terminal[n, e] = (s, 'cod')
        elif len(ends) == 1:
            n, e, o = ends[0]
            (tops if e == 'upper' else bottoms).append((at[0], n, e, at[1]))
            terminal[n, e] = ('top' if e == 'upper' else 'bottom',)
        elif len(ends) == 2:
            join(ends[0][:2], ends[1][:2])
        elif len(ends) == 4:
            up = sorted((o[0], n, e) for n, e, o in ends if e == 'lower')
            down = sorted((o[0], n, e) for n, e, o in ends if e == 'upper')
            if len(up) != 2 or len(down) != 2 or up[0][0] == up[1][0] \
                    or down[0][0] == down[1][0]:
                raise Unreadable(f'{len(ends)} wires meet at {at}')
            join(up[0][1:], down[1][1:])
            join(up[1][1:], down[0][1:])
        else:
            raise Unreadable(f'{len(ends)} wires meet at {at}')
    for at, kinds in dots.items():
        if at not in meet:
            s = Shape([at, at])
            s.name = 'spider'
            s.parent = region(*at)
            spiders.append(s)

    # port numbers
    def index(ports):
        xs = [p[0] for p in ports]
        if len({round(x, 5) for x in xs}) != len(xs):
            raise Unreadable(f'two wires end at the same port: {ports}')
        return {(n, e): i for i, (_, n, e) in enumerate(sorted(ports))}
    number = {}
    for s in shapes + spiders:
        for side, ports in s.ports.items():
            for ne, i in index(ports).items():
                number[ne] = (id(s), side, i)
    for what, ends in (('top', tops), ('bottom', bottoms)):
        if ends and len({round(y, 5) for _, _, _, y in ends}) != 1:
            raise Unreadable(f'{what} ends of wires at different heights: '
                             f'{ends}')
        for ne, i in index([e[:3] for e in ends]).items():
            number[ne] = (None, what, i)

    # follow every wire
    edges, seen, loops = [], set(), 0
    for n in range(len(strokes)):
        for e in ('upper', 'lower'):
            if (n, e) not in number or (n, e) in seen:
                continue
            seen.add((n, e))
            m, f = n, e
            while True:
                f = 'lower' if f == 'upper' else 'upper'
                seen.add((m, f))
                if (m, f) in number:
                    break
                m, f = link[m, f]
                seen.add((m, f))
            edges.append((number[n, e], number[m, f]))
    left = {n for n in range(len(strokes))
            if (n, 'upper') not in seen and (n, 'lower') not in seen}
    while left:
        n = left.pop()
        m, f = n, 'upper'
        loops += 1
        while True:
            f = 'lower' if f == 'upper' else 'upper'
            m, f = link[m, f]
            if m == n:
                break
            left.discard(m)
    return canon_picture(shapes + spiders, edges, loops)


def canon(nodes, edges, extra=()):
    """A form of a wiring of named nodes that does not depend on order.

    nodes: id -> label; edges: ((id or None, side, i), (...))."""
    colour = {k: repr(v) for k, v in nodes.items()}
    colour[None] = 'edge of picture'
    for _ in range(len(nodes) + 1):
        new = {}
        for k in colour:
            around = []
            for a, b in edges:
                for p, q in ((a, b), (b, a)):
                    if p[0] == k:
                        around.append((p[1:], colour[q[0]], q[1:]))
            new[k] = str(hash((colour[k], tuple(sorted(around)))))
        if len(set(new.values())) == len(set(colour.values())):
            colour = new
            break
        colour = new
    flat = sorted(tuple(sorted([(str(nodes.get(a[0])), colour[a[0]], a[1:]),
                                (str(nodes.get(b[0])), colour[b[0]],
                                 b[1:])])) for a, b in edges)
    return (tuple(sorted(map(repr, nodes.values()))), tuple(flat),
            tuple(extra))


def canon_picture(shapes, edges, loops):
    """Nested: a box with unnamed boxes inside is a frame."""
    for s in shapes:
        s.children = [t for t in shapes if t.parent is s]
    byid = {id(s): s for s in shapes}

    def holder(p):
        """In which region a wire end is."""
        s = byid[p[0]]
        return s if p[1] in ('in', 'out') else s.parent

    def label(s):
        if not s.children:
            return s.name
        frames = sorted((t for t in s.children), key=lambda t: t.left)
        return (s.name,) + tuple(region(t) for t in frames)

    def region(r):
        nodes = {id(s): label(s) for s in shapes if s.parent is r}
        mine = []
        for a, b in edges:
            ends, where = [], []
            for p in (a, b):
                if p[0] is None:
                    where.append(None)
                    ends.append(p)
                else:
                    where.append(holder(p))
                    ends.append(p)
            if where[0] is not where[1]:
                raise Unreadable('a wire crosses the edge of a component')
            if where[0] is not r:
                continue
            out = []
            for p in ends:
                if p[0] is None or p[0] == id(r):
                    side = {'in': 'top', 'out': 'bottom'}.get(p[1], p[1])
                    out.append((None, side, p[2]))
                else:
                    out.append(p)
            mine.append(tuple(out))
        return canon(nodes, mine)
    return region(None), loops


def shown(diagram):
    """What a drawing of the diagram should show."""
    nodes, edges, loops = {}, [], [0]

    def label(box):
        if isinstance(box, G.Frame):
            if not box.components:
                return box.name
            return (box.name,) + tuple(
                canon(*shown(x.to_diagram())[:2]) for x in box.components)
        if isinstance(box, Q.Discard):
            return 'ground'
        if isinstance(box, Q.Measure):
            return None
        return box.name
    parent = {}

    def link(a, b):
        # a and b are loose ends or ports
        parent.setdefault(a, []).append(b)
        parent.setdefault(b, []).append(a)
    fresh = [0]

    def new():
        fresh[0] += 1
        return ('loose', fresh[0])
    scan = [(None, 'top', i) for i in range(len(diagram.dom))]
    for n, (box, off) in enumerate(zip(diagram.boxes, diagram.offsets)):
        k, m = len(box.dom), len(box.cod)
        doms = scan[off:off + k]
        if isinstance(box, G.Swap):
            out = [doms[1], doms[0]]
        elif isinstance(box, G.Cup):
            link(doms[0], doms[1])
            out = []
        elif isinstance(box, G.Cap):
            a, b = new(), new()
            link(a, b)
            out = [a, b]
        elif isinstance(box, Q.Controlled):
            at, out = 0, list(doms)
            while isinstance(box, Q.Controlled):
                fresh[0] += 1
                ctrl = ('ctrl', fresh[0])
                nodes[ctrl] = 'ctrl'
                w = at if box.distance > 0 else at + len(box.dom) - 1
                link(out[w], (ctrl, 'dom', 0))
                out[w] = (ctrl, 'cod', 0)
                at += max(box.distance, 0)
                box = box.controlled
            fresh[0] += 1
            gate = ('gate', fresh[0])
            nodes[gate] = 'plus' if box == Q.X else label(box)
            for i in range(len(box.dom)):
                link(out[at + i], (gate, 'dom', i))
                out[at + i] = (gate, 'cod', i)
        else:
            nodes[n] = 'spider' if isinstance(box, G.Spider) else label(box)
            for i, d in enumerate(doms):
                link(d, (n, 'dom', i))
            out = [(n, 'cod', i) for i in range(m)]
        scan[off:off + k] = out
    for i, d in enumerate(scan):
        link(d, (None, 'bottom', i))
    seen = set()
    for a in parent:
        if a[0] != 'loose' and a not in seen:
            prev, cur = a, parent[a][0]
            seen.add(a)
            while cur[0] == 'loose':
                seen.add(cur)
                nxt = list(parent[cur])
                nxt.remove(prev)
                prev, cur = cur, nxt[0]
            seen.add(cur)
            edges.append((a, cur))
    left = {a for a in parent if a not in seen}
    while left:
        loops[0] += 1
        todo = [left.pop()]
        while todo:
            for b in parent[todo.pop()]:
                if b in left:
                    left.discard(b)
                    todo.append(b)
    return nodes, edges, loops[0]


def expected(diagram):
    nodes, edges, loops = shown(diagram)

    def all_loops(d):
        n = shown(d)[2]
        for b in d.boxes:
            if isinstance(b, G.Frame):
                n += sum(all_loops(x.to_diagram()) for x in b.components)
        return n
    return canon(nodes, edges), all_loops(diagram)


def box_names(diagram):
    """The labels of boxes, as often as they are to be drawn."""
    out = []
    for b in diagram.boxes:
        if isinstance(b, (G.Swap, G.Cup, G.Cap, G.Spider, Q.Discard,
                          Q.Measure)):
            continue
        if isinstance(b, Q.Controlled):
            while isinstance(b, Q.Controlled):
                b = b.controlled
            if b != Q.X:
                out.append(b.name)
            continue
        out.append(b.name)
        if isinstance(b, G.Frame):
            for x in b.components:
                out += box_names(x.to_diagram())
    return out


def type_labels(diagram):
    """Wires that carry a label: inputs, and what boxes put out."""
    out = [str(t) for t in diagram.dom]
    for b in diagram.boxes:
        out += [str(t) for t in b.cod]
    return out
