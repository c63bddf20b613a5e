"""P34 Drawings show every box and wire of the diagram."""
import contextlib
import io
import os
import pathlib
import re
import shutil
import tempfile
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from PIL import Image

from lambeq.backend import grammar as G
from lambeq.backend.drawing import (draw, draw_equation, draw_pregroup,
                                    render_as_str, to_gif)
from lambeq.backend.drawing.mat_backend import MatBackend
from lambeq.backend.drawing.tikz_backend import TikzBackend
from vf import draw as vd
from vf.core import Family
from vf.gen import (rand_diagram, rand_frame, rand_ty, sentence_diagram, mk,
                    flat)
from vf.qprog import Prog
from vf.sem import any_key, key

RULE = 'distinct diagrams (structure) and rendering options'
REQUIRED = ['mat', 'tikz', 'styles', 'tikz_styles', 'foliated', 'type_labels',
            'plain', 'Box', 'Cap', 'Cup', 'Spider', 'Swap', 'Word', 'Daggered',
            'daggered', 'rotated', 'scalar', 'frame', 'empty_frame',
            'nested_frame', 'daggered_frame', 'in_frame:Diagram',
            'in_frame:Frame', 'in_frame:DaggeredFrame', 'quantum',
            'q:Controlled', 'q:Ket', 'q:Bra', 'q:Measure', 'q:Encode',
            'q:Discard', 'q:MixedState', 'q:Scalar', 'q:Rx', 'pregroup',
            'pregroup_swaps', 'pregroup_open', 'as_boxes', 'as_pregroup',
            'not_pregroup', 'text', 'text_cup', 'text_swap', 'ascii', 'at',
            'uncompressed', 'equation', 'gif', 'file']


def worker_setup():
    warnings.simplefilter('ignore')
    matplotlib.rcParams['figure.max_open_warning'] = 0


def rename(c, d, counter=None):
    """Give the boxes names no type has; most of them their own."""
    counter = counter if counter is not None else [0]
    layers = []
    for l in d.layers:
        b = l.box
        if type(b) in (G.Box, G.Word):
            counter[0] += 1
            n = f'B{counter[0]}' if c.p(.85) else 'B'
            b = (G.Word(n, b.cod, b.z) if isinstance(b, G.Word)
                 else G.Box(n, b.dom, b.cod, b.z))
            if isinstance(l.box, G.Word):
                assert b.cod == l.box.cod
        layers.append(G.Layer(left=l.left, box=b, right=l.right))
    return G.Diagram(dom=d.dom, cod=d.cod, layers=layers)


def paint(c, fn, how, **kw):
    """Call a drawing function, and take the picture apart."""
    out = io.StringIO()
    if how == 'mat':
        fig, ax = plt.subplots()
        try:
            with contextlib.redirect_stdout(out):
                fn(backend=MatBackend(axis=ax), show=False, **kw)
            return vd.of_axis(ax), out.getvalue()
        finally:
            plt.close('all')
    with contextlib.redirect_stdout(out):
        if how == 'tikz':
            fn(to_tikz=True, **kw)
        else:
            fn(to_tikz=True, use_tikzstyles=True, **kw)
    try:
        pic, styles = vd.of_tikz(out.getvalue())
    except vd.Unreadable as e:
        c.fail('tikz', str(e))
    if how == 'styles':
        used = set(re.findall(r'style=([^\],]*)',
                              out.getvalue().replace('style=none', '')))
        c.check(used <= styles, 'tikz-style-undefined',
                lambda: f'{used - styles}')
        c.ev('tikz_styles')
    return pic, out.getvalue()


def judge(c, d, pic, kw):
    """The picture shows the diagram."""
    names = vd.box_names(d)
    got = sorted(t for t, x, y in pic.texts if t in set(names))
    if kw.get('draw_box_labels', True):
        c.eq(got, sorted(names), 'box-labels')
    frames = any(isinstance(b, G.Frame) for b in d.boxes)
    labels = sorted(vd.type_labels(d))
    other = sorted(t for t, x, y in pic.texts if t not in set(names))
    if kw.get('draw_type_labels', not frames):
        if not frames:
            c.eq(set(other), set(labels), 'type-labels')
            c.ev('type_labels')
    else:
        c.eq(other, [], 'unwanted-type-labels')
    want = vd.expected(d)
    try:
        seen = vd.read(pic, set(names))
    except vd.Unreadable as e:
        seen = str(e)
    if seen != want:
        for mech, cond in (('frame-beside-closed-wires', ends_beside_frame),
                           ('frame-widened-later', grows_after_frame)):
            if cond(d):
                c.known_if(mech, True, str(seen)[:300])
                return
    c.check(not isinstance(seen, str), 'unreadable', seen)
    c.eq(seen, want, 'wrong-picture')


def ends_beside_frame(d):
    """Wires end within a diagram that has a frame."""
    frames = [b for b in d.boxes if isinstance(b, G.Frame)]
    if frames and any(b.dom and not b.cod for b in d.boxes):
        return True
    return any(ends_beside_frame(x.to_diagram())
               for f in frames for x in f.components)


def grows_after_frame(d):
    """A later box spreads the wires of a frame apart."""
    seen = False
    for b in d.boxes:
        if seen and len(b.cod) > len(b.dom):
            return True
        seen |= isinstance(b, G.Frame)
    return any(grows_after_frame(x.to_diagram()) for b in d.boxes
               if isinstance(b, G.Frame) for x in b.components)


def options(c):
    kw = {}
    if c.p(.3):
        kw['foliated'] = c.p(.8)
        c.ev('foliated')
    if c.p(.2):
        kw['draw_type_labels'] = c.p(.5)
    if c.p(.15):
        kw['fontsize'] = c.choice([6, 10, 20])
    if c.p(.1):
        kw['fontsize_types'] = c.choice([6, 10, 20])
    if c.p(.1):
        kw['textpad'] = c.choice([(.1, .1), (0, 0), (.2, .3)])
    if c.p(.1):
        kw['nodesize'] = c.choice([.5, 2])
    if c.p(.1):
        kw['asymmetry'] = c.choice([0, .1, .25])
    if c.p(.1):
        kw['pad'] = c.choice([(1, 0), (0, 2), (3.5, -1)])
    if c.p(.1):
        # boxes keep their margins, so would meet if moved closer
        kw['scale'] = (c.choice([1.5, 2, 3]), 1)
    if c.p(.1):
        kw['color_boxes'] = c.p(.5)
    if c.p(.1):
        kw['color_wires'] = c.p(.5)
    return kw


HOW = ['mat', 'mat', 'tikz', 'tikz', 'styles']


def show(c, d, kw, fn=draw):
    k0 = any_key(d)
    how = c.choice(HOW)
    c.ev(how)
    c.note(diagram=repr(d), how=how, options=kw)
    pic, text = paint(c, lambda **k: fn(d, **k), how, **kw)
    c.eq(any_key(d), k0, 'diagram-altered')
    judge(c, d, pic, kw)
    c.sample(f'{how}: {len(pic.polys)} outlines, {len(pic.wires)} lines, '
             f'{len(pic.texts)} labels for {d!r}')
    c.sig(k0, how, sorted(kw))
    return pic, text


def fam_plain(c):
    d = rename(c, rand_diagram(c, layers=c.int(1, 9),
                               width=c.int(3, 8)))
    if not len(d):
        c.skip()
    for b in d.boxes:
        c.ev(type(b).__name__)
        if isinstance(b, G.Daggered):
            c.ev('daggered')
        elif b.z:
            c.ev('rotated')
        if not b.dom and not b.cod:
            c.ev('scalar')
    show(c, d, options(c))
    c.ev('plain')


def own_names(c, f, counter):
    """A copy of a frame whose boxes have names of their own."""
    comps = []
    for x in f.components:
        if isinstance(x, G.Frame):
            comps.append(own_names(c, x, counter))
        elif isinstance(x, G.Diagram):
            comps.append(rename(c, x, counter))
        elif type(x) in (G.Box, G.Word):
            comps.append(rename(c, x.to_diagram(), counter)
                         if c.p(.3) else G.Box(name(c, counter), x.dom,
                                               x.cod, x.z))
        else:
            comps.append(x)
    return G.Frame(name(c, counter, 'F'), f.dom, f.cod, f.z, comps)


def name(c, counter, letter='B'):
    counter[0] += 1
    return f'{letter}{counter[0]}' if c.p(.85) else letter


def fam_frame(c):
    counter = [0]
    f = own_names(c, rand_frame(c, c.int(0, 2), dagger=False,
                                rot=c.p(.2)), counter)
    if c.p(.1):
        f = f.dagger()
        c.ev('daggered_frame')
    d = f.to_diagram()
    if c.p(.6):
        # in the middle of something
        left, right = (rand_ty(c, 0, 2) for _ in '12')
        d = G.Id(left) @ d @ G.Id(right)
        if c.p(.5):
            d = d >> rename(c, rand_diagram(c, dom=d.cod, layers=2), counter)
        if c.p(.3):
            d = rename(c, rand_diagram(c, layers=2, dom_hi=2),
                       counter) @ d
    kinds = [type(x).__name__ for x in f.components]
    for k in kinds:
        c.ev('in_frame:' + k)
    if not f.components:
        c.ev('empty_frame')
    if f.frame_order > 1:
        c.ev('nested_frame')
    kw = {}
    if c.p(.2):
        kw['foliated'] = True
    if c.p(.3):
        kw['coloring_mode'] = c.choice(['type', 'order'])
    if c.p(.2):
        kw['color_boxes'] = c.p(.5)
    if c.p(.2):
        kw['color_wires'] = c.p(.5)
    if c.p(.1):
        kw['pad'] = c.choice([(1, 0), (0, 2), (3.5, -1)])
    show(c, d, kw)
    c.ev('frame')


def fam_quantum(c):
    p = Prog(c, ['q'] * c.int(0, 3), most=5)
    for _ in range(c.int(1, 8)):
        p.step(['gate', 'gate', 'gate2', 'controlled', 'controlled', 'ket',
                'bra', 'swap', 'scalar', 'measure', 'encode', 'discard',
                'mixedstate', 'bit', 'unbit', 'classical', 'frobenius'])
    d = p.diag
    if not len(d):
        c.skip()
    for b in d.boxes:
        c.ev('q:' + type(b).__name__)
    show(c, d, options(c))
    c.ev('quantum')


def fam_known(c):
    """The listed findings, still there or not."""
    n, s = G.Ty('n'), G.Ty('s')
    if c.index == 0:
        d = (G.Id(n @ s) @ G.Cap(s, s.l) @ G.Id(s)
             >> G.Id(n) @ G.Box('B1', s @ s, G.Ty()) @ G.Id(s.l @ s)
             >> G.Id(n @ s.l @ s) @ G.Frame('F', G.Ty(), n @ s, components=[
                 G.Box('B2', n, n)]))
        assert ends_beside_frame(d)
    else:
        d = (G.Id(s.r) @ G.Frame('F', G.Ty(), n @ s, components=[]) @ G.Id(s)
             >> G.Id(s.r @ n) @ G.Box('B1', s, n @ n) @ G.Id(s)
             >> G.Swap(s.r, n) @ G.Id(n @ n @ s))
        assert grows_after_frame(d)
    show(c, d, {})


def pregroup(c):
    """Words, cups and swaps, also where they leave several wires."""
    d = sentence_diagram(c, swaps=c.p(.6), max_words=c.int(1, 7),
                         names=c.choice([('n', 's', 'p'), ('n', 's', 'conj'),
                                         ('np', 's', 'n.p'), ('NP', 'x')]))
    if c.p(.3):
        # not reduced any further than here
        k = c.int(0, len(d))
        words = sum(isinstance(b, G.Word) for b in d.boxes)
        d = G.Diagram(dom=d.dom, cod=d.layers[k].dom if k < len(d)
                      else d.cod, layers=d.layers[:k]) if k >= words else d
    return d


def distinct(c, d, letter='W'):
    """The same with the words named apart, long and short."""
    layers = []
    for n, l in enumerate(d.layers):
        b = l.box
        if isinstance(b, G.Word):
            b = G.Word(f'{letter}{n}' + 'x' * c.int(0, 9), b.cod)
        layers.append(G.Layer(left=l.left, box=b, right=l.right))
    return G.Diagram(dom=d.dom, cod=d.cod, layers=layers)


def fam_pregroup(c):
    d = distinct(c, pregroup(c))
    assert d.is_pregroup
    kw = {}
    if c.p(.2):
        kw['draw_type_labels'] = c.p(.5)
    if c.p(.2):
        kw['fontsize'] = c.choice([6, 20])
    if c.p(.2):
        kw['textpad'] = c.choice([(0, 0), (.2, .3)])
    if c.p(.1):
        kw['pad'] = c.choice([(1, 0), (0, 2), (3.5, -1)])
    if c.p(.2):
        kw['nodesize'] = c.choice([.5, 2])
    c.ev('pregroup')
    if any(isinstance(b, G.Swap) for b in d.boxes):
        c.ev('pregroup_swaps')
    if len(d.cod) > 1:
        c.ev('pregroup_open')
    how = c.int(0, 2)
    fn = (draw_pregroup if how == 0 else
          (lambda x, **k: x.draw(**k)) if how == 1 else
          (lambda x, **k: x.draw(draw_as_pregroup=False, **k)))
    c.ev('as_boxes' if how == 2 else 'as_pregroup')
    show(c, d, kw, fn)
    if c.p(.2):
        e = d @ G.Id(mk([('n', 0)]))
        if not e.is_pregroup:
            c.raises(ValueError, lambda: draw_pregroup(e, show=False),
                     mechanism='not-a-pregroup-drawn')
            c.raises(Exception, lambda: e.render_as_str(),
                     mechanism='not-a-pregroup-rendered')
            c.ev('not_pregroup')


SETS = {False: dict(bar='│', bl='╰', br='╯', line='─', tl='╭', tr='╮',
                    dot='·'),
        True: dict(bar='|', bl='\\', br='/', line='_', tl='\xa0', tr='\xa0',
                   dot=' ')}


def trace(text, words, ascii_):
    """Read a sentence rendered as text: which type columns are joined,
    and the order in which the rest comes out."""
    ch = SETS[ascii_]
    lines = text.split('\n')
    width = max(map(len, lines))
    lines = [l.ljust(width) for l in lines]
    # where the words and their types are
    wires, at = [], 0
    tpos = 0
    for word, types in words:
        i = lines[0].find(word, at)
        if i < 0 or lines[0][at:i].strip():
            raise vd.Unreadable(f'word {word} is missing')
        at = i + len(word)
        span = re.compile(re.escape(ch['line']) + '+')
        here = [m for m in span.finditer(lines[1])
                if m.start() <= i and at <= m.end()]
        if len(here) != 1:
            raise vd.Unreadable(f'no underline for {word}')
        lo, hi = here[0].span()
        for j, t in enumerate(types):
            k = lines[2].find(t, tpos)
            if k < 0 or k < lo or k + len(t) > hi:
                raise vd.Unreadable(f'type {t} is not under {word}')
            gap = lines[2][tpos:k].replace('@', ' ').replace(ch['dot'], ' ')
            if gap.strip() or (j and not lines[2][tpos:k]):
                raise vd.Unreadable(f'{gap} between types')
            wires.append((k, k + len(t)))
            tpos = k + len(t)
    if lines[0][at:].strip() or lines[2][tpos:].strip():
        raise vd.Unreadable('more words or types')
    live = list(range(len(wires)))      # in order of columns
    col = {}
    joined = set()
    rows = lines[3:]
    skip = {}
    for r, row in enumerate(rows):
        i = 0
        spots = []
        while i < len(row):
            x = row[i]
            if (r, i) in skip:
                i += 1
                continue
            if x == ch['bar']:
                spots.append(('bar', i, i))
                i += 1
            elif x == ch['bl']:
                j = i + 1
                mid = None
                while j < len(row) and row[j] != ch['br']:
                    if row[j] == ch['tr']:
                        if mid is not None:
                            raise vd.Unreadable(f'two crossings: {row}')
                        mid = j
                    elif row[j] != ch['line']:
                        raise vd.Unreadable(f'broken line: {row}')
                    j += 1
                if j == len(row):
                    raise vd.Unreadable(f'open line: {row}')
                if mid is None:
                    spots.append(('cup', i, j))
                else:
                    spots.append(('swap', i, j))
                    below = rows[r + 1] if r + 1 < len(rows) else ''
                    shape = ''.join(
                        ch['tl'] if k == i else ch['bl'] if k == mid
                        else ch['tr'] if k == j else ch['line']
                        for k in range(i, j + 1))
                    if below[i:j + 1] != shape:
                        raise vd.Unreadable(
                            f'crossing goes wrong: {below[i:j + 1]!r}, '
                            f'{shape!r}')
                    for k in range(i, j + 1):
                        skip[r + 1, k] = True
                i = j + 1
            elif x in ' \xa0':
                i += 1
            else:
                raise vd.Unreadable(f'stray {x!r} in {row}')
        ends = []
        for kind, a, b in spots:
            ends += [(a, kind)] if kind == 'bar' else [(a, kind), (b, kind)]
        covered = {w for w, k in enumerate(live)
                   if k in col and (r, col[k]) in skip}
        expect = [k for w, k in enumerate(live) if w not in covered]
        if len(ends) != len(expect):
            # a crossing takes two rows, a cup beside it one
            raise vd.Unreadable(f'{len(ends)} wires in row {row!r}, '
                                f'{len(expect)} live')
        ends.sort()
        for (x, kind), k in zip(ends, expect):
            if k in col:
                if col[k] != x:
                    raise vd.Unreadable(f'wire jumps from {col[k]} to {x}')
            else:
                lo, hi = wires[k]
                if not lo <= x < hi:
                    raise vd.Unreadable(f'wire {x} is not under its type')
                col[k] = x
        at_col = {col[k]: k for k in expect}
        new = list(live)
        for kind, a, b in spots:
            if kind == 'cup':
                joined.add((at_col[a], at_col[b]))
                new.remove(at_col[a])
                new.remove(at_col[b])
        for kind, a, b in spots:
            if kind == 'swap':
                ka, kb = at_col[a], at_col[b]
                i, j = new.index(ka), new.index(kb)
                if j != i + 1:
                    raise vd.Unreadable('crossing over other wires')
                new[i], new[j] = kb, ka
                col[ka], col[kb] = b, a
        live = new
    return joined, live


def fam_text(c):
    d = distinct(c, pregroup(c), c.choice(['W', 'Wo', 'Wor']))
    kw = {}
    if c.p(.4):
        kw['word_spacing'] = c.int(1, 5)
    if c.p(.4):
        kw['use_at_separator'] = c.p(.7)
        c.ev('at')
    if c.p(.4):
        kw['compress_layers'] = c.p(.3)
        c.ev('uncompressed')
    if c.p(.4):
        kw['use_ascii'] = c.p(.7)
        c.ev('ascii')
    c.note(diagram=repr(d), options=kw)
    c.sig(any_key(d), sorted(kw.items()))
    k0 = any_key(d)
    text = d.render_as_str(**kw)
    c.eq(text, render_as_str(d, **kw), 'render-differs')
    c.eq(any_key(d), k0, 'diagram-altered')
    words = [(b.name, [str(t) for t in b.cod]) for b in d.boxes
             if isinstance(b, G.Word)]
    scan, joined = [], set()
    for b, off in zip(d.boxes, d.offsets):
        if isinstance(b, G.Word):
            scan += range(len(scan), len(scan) + len(b.cod))
        elif isinstance(b, G.Cup):
            joined.add(tuple(scan[off:off + 2]))
            del scan[off:off + 2]
            c.ev('text_cup')
        else:
            scan[off:off + 2] = scan[off:off + 2][::-1]
            c.ev('text_swap')
    try:
        got = trace(text, words, kw.get('use_ascii', False))
    except vd.Unreadable as e:
        c.fail('text-unreadable', f'{e}\n{text}')
    c.eq(got, (joined, scan), 'text-wrong', '\n' + text)
    c.ev('text')


def fam_several(c):
    """Equations, animations and files."""
    kind = c.choice(['equation', 'equation', 'gif', 'file', 'file'])
    c.ev(kind)
    count = [0]
    ds = [rename(c, rand_diagram(c, layers=c.int(1, 4)), count)
          for _ in range(c.int(1, 4))]
    keys = [any_key(d) for d in ds]
    c.sig(kind, *keys)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf-p34-'))
    here = os.getcwd()
    try:
        os.chdir(tmp)
        if kind == 'equation':
            symbol = c.choice(['=', '+', '->'])
            kw = {}
            if c.p(.5):
                kw['symbol'] = symbol
            else:
                symbol = '='
            if c.p(.3):
                # boxes keep their margins, so would meet the sign if less
                kw['space'] = c.choice([1.5, 2])
            kw['draw_as_pregroup'] = False
            how = c.choice(HOW)
            c.note(diagrams=repr(ds), how=how, options=kw)
            pic, _ = paint(c, lambda **k: draw_equation(*ds, **k), how, **kw)
            signs = sorted(x for t, x, y in pic.texts if t == symbol)
            c.eq(len(signs), len(ds) - 1, 'equation-signs')
            names = [vd.box_names(d) for d in ds]
            c.eq(sorted(t for t, x, y in pic.texts
                        if any(t in n for n in names)),
                 sorted(sum(names, [])), 'equation-labels')
            bounds = [float('-inf')] + signs + [float('inf')]
            for i, d in enumerate(ds):
                part = vd.Picture()
                lo, hi = bounds[i], bounds[i + 1]

                def inside(pts):
                    return all(lo < p[0] < hi for p in pts)
                part.polys = [p for p in pic.polys if inside(p)]
                part.wires = [p for p in pic.wires if inside(p)]
                part.dots = [p for p in pic.dots if inside([p])]
                part.texts = [t for t in pic.texts if lo < t[1] < hi]
                try:
                    seen = vd.read(part, set(names[i]))
                except vd.Unreadable as e:
                    c.fail('equation-unreadable', str(e))
                c.eq(seen, vd.expected(d), 'equation-wrong', f'term {i}')
        elif kind == 'gif':
            ds = ds[:3]
            path = c.choice([None, 'x.gif'])
            loop = c.p(.5)
            back = to_gif(ds, path=path, loop=loop, draw_as_pregroup=False,
                          show=False)
            left = list(tmp.iterdir())
            c.eq(len(left), 1, 'gif-files', str(left))
            if path:
                c.eq(left[0].name, path, 'gif-path')
            text = getattr(back, 'data', back)
            c.check(left[0].name in text, 'gif-not-referenced', text)
            with Image.open(left[0]) as im:
                c.eq(im.format, 'GIF', 'gif-format')
                if len(set(keys[:3])) == len(ds) > 1:
                    # the turning point may be shown once or twice
                    c.check(im.n_frames in ((len(ds), ) if not loop else
                                            (2 * len(ds), 2 * len(ds) - 1)),
                            'gif-frames', im.n_frames)
        else:
            d = ds[0]
            how = c.choice(['png', 'svg', 'tikz', 'styles'])
            path = f'picture.{how if how in ("png", "svg") else "tikz"}'
            kw = {'path': path, 'show': False}
            if how in ('tikz', 'styles'):
                kw['to_tikz'] = True
                kw['use_tikzstyles'] = how == 'styles'
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                draw(d, **kw)
            c.eq(out.getvalue(), '', 'printed-too')
            names = {x.name for x in tmp.iterdir()}
            want = {path} | ({'picture.tikzstyles'} if how == 'styles'
                             else set())
            c.eq(names, want, 'files')
            if how in ('png', 'svg'):
                c.check((tmp / path).stat().st_size > 100, 'empty-image')
            else:
                try:
                    pic, _ = vd.of_tikz((tmp / path).read_text())
                    seen = vd.read(pic, set(vd.box_names(d)))
                except vd.Unreadable as e:
                    c.fail('file-unreadable', str(e))
                c.eq(seen, vd.expected(d), 'file-wrong')
                if how == 'styles':
                    used = set(re.findall(
                        r'style=([^\],]*)', (tmp / path).read_text().replace(
                            'style=none', '')))
                    defined = set(re.findall(
                        r'tikzstyle\{(.*?)\}=',
                        (tmp / 'picture.tikzstyles').read_text()))
                    c.check(used <= defined, 'tikz-style-undefined',
                            lambda: f'{used - defined}')
        c.eq([any_key(d) for d in ds], keys[:len(ds)], 'diagram-altered')
    finally:
        os.chdir(here)
        plt.close('all')
        shutil.rmtree(tmp)


FAMILIES = [
    Family('known', fam_known, 2, 2),
    Family('plain', fam_plain, 400),
    Family('frame', fam_frame, 300),
    Family('quantum', fam_quantum, 300),
    Family('pregroup', fam_pregroup, 300),
    Family('text', fam_text, 600),
    Family('several', fam_several, 60),
]
