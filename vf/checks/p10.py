"""P10 CCG derivations become well-typed diagrams that keep their words."""
import copy
import json

from lambeq.backend import grammar as G
from lambeq.text2diagram.ccg_rule import CCGRule, CCGRuleUseError
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType

from vf import ccg
from vf.ccg import (derivation, wiring, Unresolvable, diagram_wiring, to_ccg,
                    from_ccg, flat_cat, cx, is_cx, rand_cat, collapse, A)
from vf.core import Family
from vf.gen import flat
from vf.sem import typing_error

RULE = 'distinct derivation shapes with at least two leaves'
REQUIRED = ['converted', 'planar', 'nonplanar', 'wiring_compared',
            'rule_inferred', 'rule_unknown', 'apply_checked', 'apply_refused',
            'json', 'json_text', 'inner_text', 'collapsed', 'trivial_unary', 'deriv_h',
            'deriv_v', 'bad_children', 'retyped'] + [
    f'rule_{r}' for r in ['FA', 'BA', 'FC', 'BC', 'FX', 'BX', 'GFC', 'GBC',
                          'GFX', 'GBX', 'FTR', 'BTR', 'LP', 'RP', 'CONJ',
                          'U']]
PUN, CON = ('punc',), ('conj',)


def shape_sig(c, d):
    def sh(n):
        return (n.rule, n.cat, tuple(sh(k) for k in n.children))
    if len(d.leaves()) > 1:
        c.sig(sh(d))


def swaps_direction(d, col):
    return any(n.rule == 'U' and is_cx(n.cat) for n in d.nodes())


def gen(c, leaves=6, **kw):
    u = c.choice([False, False, True, 'swap'])
    d = derivation(c, unary=u, unique=True, leaves=leaves, **kw)
    c.note(repr(d))
    for n in d.nodes():
        if n.children:
            c.ev('rule_' + n.rule)
    shape_sig(c, d)
    return d


def convert(c):
    d = gen(c)
    c.sample(repr(d))
    np = c.p(.5)
    col = collapse if np else (lambda x: x)
    want = None
    try:
        want = wiring(d, np)
    except Unresolvable:
        c.ev('unresolvable')
    tree = d.tree(rules=c.p(.5))
    before = json.dumps(tree.to_json())
    words = [x.word for x in d.leaves()]
    for planar in (False, True):
        kw = {'planar': planar, 'collapse_noun_phrases': np}
        if np and c.p(.5):
            del kw['collapse_noun_phrases']
        c.note(f'to_diagram({kw})')
        try:
            g = tree.to_diagram(**kw)
        except (ValueError, CCGRuleUseError) as e:
            # documented: the direction-changing unary rule needs a swap
            ok = (planar and isinstance(e, ValueError)
                  and any(n.rule == 'U' for n in d.nodes()))
            if want is None and any(n.rule == 'U' for n in d.nodes()):
                ok = True
            c.check(ok, 'conversion-refused', f'{e!r} for {d}')
            c.ev('conversion_refused')
            continue
        c.ev('converted')
        c.ev('planar' if planar else 'nonplanar')
        te = typing_error(g)
        c.check(te is None, 'ill-typed', te)
        c.eq(flat(g.dom), (), 'domain')
        c.eq(flat(g.cod), flat_cat(col(d.cat)), 'codomain')
        if planar:
            c.check(not any(isinstance(b, G.Swap) for b in g.boxes),
                    'planar-has-swap', str(g))
        wl = [b for b in g.boxes if isinstance(b, G.Word)]
        for b in wl:
            c.check(b.name in words, 'unknown-word', b.name)
        idx = [words.index(b.name) for b in wl]
        c.eq(len(set(idx)), len(idx), 'word-repeated')
        crossed = any(n.rule in ('FX', 'BX', 'GFX', 'GBX')
                      for n in d.nodes())
        if not planar or not crossed:
            c.eq(idx, sorted(idx), 'word-order', str([b.name for b in wl]))
        kept = {i for i, x in enumerate(d.leaves())}
        if want is None:
            # removed punctuation is the only thing that may disappear
            gone = kept - set(idx)
            c.check(all(d.leaves()[i].cat == PUN for i in gone),
                    'word-lost', str(gone))
            continue
        lt, out, pairs = want
        types = {j: flat(b.cod) for j, b in zip(idx, wl)}
        c.eq(types, {j: t for j, t in lt.items() if t is not None},
             'word-types')
        if any(t is not None and t != flat_cat(col(x.cat))
               for t, x in zip([lt[j] for j in sorted(lt)], d.leaves())):
            c.ev('retyped')
        c.eq(diagram_wiring(g, idx), pairs, 'wiring', str(d))
        c.ev('wiring_compared')
    c.eq(json.dumps(tree.to_json()), before, 'tree-altered')


# --- rule inference --------------------------------------------------------
def spine_replace(sub, Y, X, kinds):
    """All ways of seeing `sub` as (..(Y|Z1)..)|Zn with innermost slash (and,
    for the uncrossed rules, all slashes) fitting; gives the results."""
    out, spine, x = [], [], sub
    while True:
        if x == Y and len(spine) >= 1:
            r = X
            for d, a in reversed(spine):
                r = cx(d, r, a)
            inner = spine[-1][0]
            if kinds == 'all/':
                ok = all(s[0] == '/' for s in spine)
            elif kinds == 'all\\':
                ok = all(s[0] == '\\' for s in spine)
            else:
                ok = True
            if ok:
                out.append((r, inner, len(spine)))
        if not is_cx(x):
            return out
        spine.append((x[0], x[2]))
        x = x[1]


def accepting(kids, out):
    r = set()
    if len(kids) == 1:
        k, = kids
        if is_cx(out) and out == ('/', out[1], ('\\', out[1], k)):
            r.add('FTR')
        if is_cx(out) and out == ('\\', out[1], ('/', out[1], k)):
            r.add('BTR')
        if not r:
            r.add('U')
        return r
    a, b = kids
    if a == ('/', out, b):
        r.add('FA')
    if b == ('\\', out, a):
        r.add('BA')
    if is_cx(a) and a[0] == '/':
        for res, inner, n in spine_replace(b, a[2], a[1], 'any'):
            if res == out:
                same = all_same(b, n)
                if n == 1:
                    r.add('FC' if inner == '/' else 'FX')
                elif inner == '/' and same:
                    r.add('GFC')
                r.add('GFX' if inner == '\\' else 'mixed')
    if is_cx(b) and b[0] == '\\':
        for res, inner, n in spine_replace(a, b[2], b[1], 'any'):
            if res == out:
                same = all_same(a, n)
                if n == 1:
                    r.add('BC' if inner == '\\' else 'BX')
                elif inner == '\\' and same:
                    r.add('GBC')
                r.add('GBX' if inner == '/' else 'mixed')
    return r


def all_same(cat, n):
    ds = set()
    for _ in range(n):
        ds.add(cat[0])
        cat = cat[1]
    return len(ds) == 1


CODE = {'FA': 'FA', 'BA': 'BA'}
SPECIAL = (PUN, CON)


def infer_tree(c):
    d = gen(c)
    for n in d.nodes():
        if not n.children:
            continue
        kids = [k.cat for k in n.children]
        dom, cod = [to_ccg(k) for k in kids], to_ccg(n.cat)
        got = CCGRule.infer_rule(dom, cod).value
        c.ev('rule_inferred')
        ok = {n.rule} | accepting(kids, n.cat)
        if n.rule == 'U':
            ok = accepting(kids, n.cat)
        if n.rule not in ('LP', 'RP', 'CONJ') and not any(
                k in SPECIAL for k in kids):
            c.check(n.rule in ok, 'harness-acceptor', f'{n.rule} {kids}')
        # composition written as plain must not be reported as crossed
        if 'GFX' in ok and n.rule in ('FC', 'GFC', 'FX'):
            ok.discard('GFX')
        if 'GBX' in ok and n.rule in ('BC', 'GBC', 'BX'):
            ok.discard('GBX')
        c.check(got in ok, 'inferred-rule',
                f'{kids} -> {n.cat}: {got} not in {ok}')


def infer_random(c):
    """Arbitrary triples: an inferred rule must accept the triple."""
    atoms = ['n', 's']
    if c.p(.6):
        # near misses: one edit of a valid step
        d = derivation(c, leaves=3, unary=False)
        ns = [n for n in d.nodes() if len(n.children) == 2]
        if not ns:
            c.skip()
        n = c.choice(ns)
        kids, out = [k.cat for k in n.children], n.cat
        if c.p(.8):
            k = c.int(0, 2)
            if k == 2:
                out = edit(c, out)
            else:
                kids[k] = edit(c, kids[k])
    else:
        kids = [rand_cat(c, c.int(0, 3), atoms) for _ in range(2)]
        out = rand_cat(c, c.int(0, 3), atoms)
    if any(k in SPECIAL for k in kids):
        c.skip('punctuation and conjunction accept any codomain')
    c.note(f'{kids} -> {out}')
    got = CCGRule.infer_rule([to_ccg(k) for k in kids], to_ccg(out)).value
    ok = accepting(kids, out)
    if not ok:
        c.ev('rule_unknown')
        c.eq(got, CCGRule.UNKNOWN.value, 'inferred-for-nonsense',
             f'{kids} -> {out}')
    else:
        c.ev('rule_found')
        if 'mixed' in ok:
            ok |= {'GFX', 'GBX', 'UNK'}     # left open
        c.check(got in ok, 'inferred-rule-random', f'{got} not in {ok}')
        c.sig('infer', tuple(kids), out)


def edit(c, cat):
    if not is_cx(cat) or c.p(.3):
        return c.choice([A('n'), A('s'), A('np'),
                         cx(c.choice('/\\'), cat, A('n'))])
    k = c.int(0, 2)
    if k == 0:
        return cx('/' if cat[0] == '\\' else '\\', cat[1], cat[2])
    if k == 1:
        return cx(cat[0], edit(c, cat[1]), cat[2])
    return cx(cat[0], cat[1], edit(c, cat[2]))


def apply_rule(c):
    d = gen(c)
    for n in d.nodes():
        if not n.children or n.rule in ('CONJ', 'U'):
            continue
        kids = [k.cat for k in n.children]
        dom, cod = [to_ccg(k) for k in kids], to_ccg(n.cat)
        rule = CCGRule(n.rule)
        g = (rule.apply(dom, cod) if c.p(.5) else rule(dom, cod))
        te = typing_error(g)
        c.check(te is None, 'apply-ill-typed', te)
        gone = {'LP': 0, 'RP': 1}.get(n.rule)
        c.eq(flat(g.dom), sum((flat_cat(k) for i, k in enumerate(kids)
                               if i != gone), ()),
             'apply-domain', n.rule)
        c.eq(flat(g.cod), flat_cat(n.cat), 'apply-codomain', n.rule)
        c.ev('apply_checked')
    r = c.choice(list(CCGRule))
    arity = (1 if r in (CCGRule.UNARY, CCGRule.FORWARD_TYPE_RAISING,
                        CCGRule.BACKWARD_TYPE_RAISING) else 2)
    dom = [to_ccg(rand_cat(c, 2)) for _ in range(c.int(0, 4))]
    cod = to_ccg(cx('/', A('s'), cx('\\', A('s'), A('n'))))
    c.note(f'{r} on {dom}')
    if r in (CCGRule.UNKNOWN, CCGRule.LEXICAL, CCGRule.CONJUNCTION):
        c.raises(CCGRuleUseError, lambda: r.apply(dom, cod), 'apply-error')
        c.ev('apply_refused')
    elif len(dom) != arity:
        e = c.raises(CCGRuleUseError, lambda: r.apply(dom, cod),
                     'apply-error', f'{r} on {len(dom)}')
        c.check(str(e), 'apply-error-text')
        c.ev('apply_refused')
    elif r in (CCGRule.FORWARD_TYPE_RAISING, CCGRule.BACKWARD_TYPE_RAISING):
        c.raises(CCGRuleUseError, lambda: r.apply(dom), 'apply-error')
        c.ev('apply_refused')


def json_rt(c):
    d = gen(c)
    t = d.tree()
    if c.p(.3):         # inner nodes may have a text of their own
        stack = [t]
        while stack:
            x = stack.pop()
            stack += x.children
            if x.children and c.p(.5):
                x._text = c.choice(['whole', "don't", x.text + ' ',
                                    x.text.replace(' ', '_')])
                c.ev('inner_text')
    texts = t.text
    j = t.to_json()
    keep = copy.deepcopy(j)
    c.eq(json.loads(json.dumps(j)), j, 'json-not-plain')
    for data in (j, json.dumps(j)):
        c.ev('json' if data is j else 'json_text')
        u = CCGTree.from_json(data)
        c.check(u == t and t == u, 'json-unequal', lambda: json.dumps(j))
        c.eq(shape(u), d.shape(), 'json-shape')
        c.eq(u.text, texts, 'json-text')
        c.eq(j, keep, 'json-data-altered')
        a = outcome(lambda: t.to_diagram())
        b = outcome(lambda: u.to_diagram())
        c.check(a == b, 'json-diagram', lambda: f'{a} != {b}')
    c.check(CCGTree.from_json(None) is None, 'json-none')
    # trees that differ are told apart
    e = derivation(c, leaves=3)
    if e.shape() != d.shape():
        c.check(e.tree() != t, 'unequal-trees-equal', f'{d} {e}')
    ns = [n for n in d.nodes()]
    n = c.choice(ns)
    old = n.cat, n.word, n.rule
    if n.children and len(n.children) == 2 and c.p(.4):
        n.rule = 'BX' if n.rule != 'BX' else 'FA'
    elif n.word and c.p(.5):
        n.word += 'x'
    else:
        n.cat = cx('/', n.cat, A('n'))
    c.check(d.tree() != t, 'unequal-trees-equal', f'{old} in {d}')


def outcome(f):
    try:
        return f()
    except (ValueError, CCGRuleUseError) as e:
        return type(e).__name__


def shape(t):
    cat = from_ccg(t.biclosed_type)
    if not t.children:
        return ('L', cat, t.text)
    return (t.rule.value, cat, tuple(shape(k) for k in t.children))


def transform(c):
    d = gen(c)
    t = d.tree()
    before = shape(t)
    k = t.collapse_noun_phrases()

    def col(n):
        return (n[0], collapse(n[1]), n[2] if isinstance(n[2], str)
                else tuple(col(x) for x in n[2]))
    c.ev('collapsed')
    c.eq(shape(k), col(before), 'collapse-noun-phrases')
    c.eq(shape(t), before, 'collapse-altered')

    # insert trivial unary steps and take them out again
    def insert(t):
        kids = [insert(x) for x in t.children]
        u = CCGTree(t.text if not kids else None, rule=t.rule,
                    biclosed_type=t.biclosed_type, children=kids)
        while c.p(.3):
            c.ev('trivial_unary')
            u = CCGTree(rule='U', biclosed_type=t.biclosed_type,
                        children=[u])
        return u
    u = insert(t)
    s0 = shape(u)
    c.eq(shape(u.without_trivial_unary_rules()),
         notriv(before), 'without-trivial-unary')
    c.eq(shape(u), s0, 'without-trivial-unary-altered')
    if any(n.rule in ('U', 'CONJ') for n in d.nodes()):
        return      # type changes may stop at the inserted step
    a, b = outcome(lambda: t.to_diagram()), outcome(lambda: u.to_diagram())
    c.check(a == b, 'trivial-unary-changes-diagram', lambda: f'{a} != {b}')


def notriv(n):
    while n[0] == 'U' and n[2][0][1] == n[1]:
        n = n[2][0]
    return (n[0], n[1], n[2] if isinstance(n[2], str)
            else tuple(notriv(x) for x in n[2]))


def deriv(c):
    d = gen(c)
    t = d.tree()
    words = [x.word for x in d.leaves()]
    for vertical in (False, True):
        kw = dict(vertical=vertical, use_ascii=c.p(.3),
                  use_slashes=c.p(.5), word_spacing=c.int(1, 5))
        c.note(f'deriv({kw})')
        s = t.deriv(**kw)
        c.ev('deriv_v' if vertical else 'deriv_h')
        pos = -1
        lines = s.split('\n')
        if not vertical:
            c.eq(lines[0].split(), words, 'deriv-words')
            c.check(len({len(x) for x in lines}) <= 1
                    or all(len(x) <= len(lines[0]) + 40 for x in lines),
                    'deriv-lines')
        else:
            got = [x for x in words if repr(x) in s]
            c.eq(got, words, 'deriv-words-vertical')
            for x in words:
                p = s.index(repr(x), pos + 1)
                c.check(p > pos, 'deriv-order')
                pos = p
            c.eq(len(lines), sum(1 for _ in d.nodes()), 'deriv-steps')


def arity(c):
    r = c.choice([x for x in CCGRule if x != CCGRule.UNKNOWN])
    need = {CCGRule.LEXICAL: 0, CCGRule.UNARY: 1,
            CCGRule.FORWARD_TYPE_RAISING: 1,
            CCGRule.BACKWARD_TYPE_RAISING: 1}.get(r, 2)
    n = c.int(0, 4)
    kids = [CCGTree(f'w{i}', rule='L', biclosed_type=CCGType.NOUN)
            for i in range(n)]
    mk = lambda: CCGTree('t' if n == 0 else None, rule=r,  # noqa: E731
                         biclosed_type=CCGType.NOUN, children=kids)
    if n != need:
        c.raises(ValueError, mk, 'child-count', f'{r} with {n}')
        c.ev('bad_children')
    else:
        t = mk()
        c.eq((t.is_leaf, t.is_unary, t.is_binary),
             (n == 0, n == 1, n == 2), 'arity-flags')
        c.eq(t.height, 1 if n else 0, 'height')
        for k, attr in ((1, 'child'), (2, 'left'), (2, 'right')):
            if n == k:
                c.check(getattr(t, attr) is kids[1 if attr == 'right'
                                                 else 0], 'child-access')
            else:
                c.raises(ValueError, lambda: getattr(t, attr),
                         'child-access')


FAMILIES = [
    Family('convert', convert, 2500),
    Family('infer', infer_tree, 800),
    Family('infer_random', infer_random, 3000),
    Family('apply', apply_rule, 800),
    Family('json', json_rt, 500),
    Family('transform', transform, 500),
    Family('deriv', deriv, 300),
    Family('arity', arity, 150),
]
