"""P09 CCG categories parse and print faithfully."""
import copy

from lambeq.text2diagram.ccg_type import CCGType, CCGParseError

from vf.core import Family
from vf.ccg import (to_ccg, from_ccg, text, rand_cat, flat_cat, cx, is_cx, A)
from vf.gen import flat

RULE = 'distinct complex categories or category texts'
REQUIRED = ['parsed', 'refused', 'brackets', 'conj_suffix', 'mutated_ok',
            'replace', 'replace_result', 'split', 'attribute_error',
            'map_atomic', 'equal', 'different', 'bad_bracket']
NAMES = ['n', 'np', 's', 'p', 'conj', 'S[dcl]', 'NP[nb]', 'N', ',', 'a b',
         '.', 'x[y]', 'é']


class Refuse(Exception):
    pass


# --- our own reading of the documented grammar -----------------------------
def parse(t):
    conj = t.endswith('[conj]')
    if conj:
        t = t[:-6]
    r, rest = compound(t)
    if rest:
        raise Refuse
    return ('\\', r, r) if conj else r


def compound(t):
    a, rest = unit(t)
    if rest[:1] in ('/', '\\') and rest:
        b, rest2 = unit(rest[1:])
        return (rest[0], a, b), rest2
    return a, rest


def unit(t):
    if not t:
        raise Refuse
    if t[0] == '(':
        r, rest = compound(t[1:])
        if rest[:1] != ')':
            raise Refuse
        return r, rest[1:]
    k = 0
    while k < len(t) and t[k] not in '()/\\':
        k += 1
    if not k or t[k:k + 1] == '(':
        raise Refuse
    return (t[:k],), t[k:]


def cat(c, d=3):
    return rand_cat(c, c.int(0, d), NAMES)


def roundtrip(c):
    x = cat(c)
    t = to_ccg(x)
    c.note(text(x))
    c.eq(from_ccg(t), x, 'structure')
    c.eq(str(t), text(x), 'print', text(x))
    c.eq(str(t), t.to_string(), 'print')
    c.ev('parsed')
    r = CCGType.parse(str(t))
    c.eq(from_ccg(r), x, 'parse-of-print', str(t))
    c.check(r == t and t == r and not (r != t), 'equality', str(t))
    s = text(x, lambda: c.p(.3))
    if s != text(x):
        c.ev('brackets')
    c.eq(from_ccg(CCGType.parse(s)), x, 'parse-redundant-brackets', s)
    c.ev('conj_suffix')
    y = CCGType.parse(s + '[conj]')
    c.eq(from_ccg(y), ('\\', x, x), 'conj-suffix', s)
    c.ev('map_atomic')
    seen = []

    def m(n):
        seen.append(n)
        return n.upper() + '1'

    def mm(v):
        return (v[0], mm(v[1]), mm(v[2])) if is_cx(v) else m(v[0])and(
            v[0].upper() + '1',)
    want = mm(x)
    names, seen[:] = list(seen), []
    c.eq(from_ccg(CCGType.parse(s, map_atomic=m)), want, 'map-atomic', s)
    c.eq(sorted(seen), sorted(names), 'map-atomic-calls', s)
    if is_cx(x):
        c.sig(x)
    # pretty printing distinguishes categories too
    z = cat(c)
    if z != x:
        c.ev('different')
        c.check(to_ccg(z) != t, 'equality', f'{text(z)} == {text(x)}')
        c.check(str(to_ccg(z)) != str(t), 'print-ambiguous', text(z))
        c.check(to_ccg(z).to_string(True) != t.to_string(True),
                'print-ambiguous', text(z))
    c.ev('equal')
    c.eq(copy.deepcopy(t), t, 'deepcopy')
    c.sample(s)


def mutate(c):
    s = text(cat(c), lambda: c.p(.25))
    if c.p(.15):
        s += '[conj]'
    for _ in range(c.int(1, 3)):
        k = c.int(0, len(s))
        op = c.int(0, 3)
        if op == 0:
            s = s[:k] + s[k + 1:]
        elif op == 1:
            s = s[:k] + c.choice('()/\\ns[] \n') + s[k:]
        elif op == 2:
            j = c.int(0, len(s))
            a, b = min(j, k), max(j, k)
            s = s[:a] + s[a:b] * 2 + s[b:]
        else:
            s = s[:k]
    if c.p(.05):
        s += c.choice([' ', '\n', '\t', '\xa0', '.', '*'])
    c.note(repr(s))
    try:
        want = parse(s)
    except Refuse:
        c.ev('refused')
        if '(' in s and s.count('(') <= s.count(')'):
            c.ev('bad_bracket')
        e = c.raises(CCGParseError, lambda: CCGType.parse(s),
                     'not-refused', repr(s))
        c.eq(e.cat, s, 'error-text', 'the error names the input')
        str(e)
    else:
        c.ev('mutated_ok')
        c.eq(from_ccg(CCGType.parse(s)), want, 'parse', repr(s))
    c.sig(s)


def chained(c):
    """Chained slashes without brackets are outside the grammar."""
    parts = [text(cat(c, 1), None, False) for _ in range(c.int(3, 4))]
    s = parts[0]
    for p in parts[1:]:
        s += c.choice('/\\') + p
    w = c.choice(['{}', '({})', '(({}))', 'x/({})', '({})\\y', '({}/z)'])
    s = w.format(s)
    c.note(s)
    c.ev('refused')
    c.raises(CCGParseError, lambda: CCGType.parse(s), 'not-refused', s)
    c.sig(s)


def repl(x, a, b):
    if x == a:
        return b
    if is_cx(x):
        return (x[0], repl(x[1], a, b), repl(x[2], a, b))
    return x


def parts(c):
    x = cat(c)
    t = to_ccg(x)
    c.note(text(x))
    c.eq((t.is_complex, t.is_atomic, t.is_empty, t.is_over, t.is_under),
         (is_cx(x), not is_cx(x), False, x[0] == '/', x[0] == '\\'),
         'kind')
    if is_cx(x):
        c.sig(x)
        c.eq(from_ccg(t.result), x[1], 'result')
        c.eq(from_ccg(t.argument), x[2], 'argument')
        c.eq(t.direction, x[0], 'direction')
        over = x[0] == '/'
        c.eq(from_ccg(t.left), x[1] if over else x[2], 'left')
        c.eq(from_ccg(t.right), x[2] if over else x[1], 'right')
        c.ev('attribute_error')
        c.raises(AttributeError, lambda: t.name, 'name-of-complex')
    else:
        c.eq(t.name, x[0], 'name')
        for a in ('result', 'argument', 'direction', 'left', 'right'):
            c.ev('attribute_error')
            c.raises(AttributeError, lambda: getattr(t, a),
                     'part-of-atomic', a)
    c.eq(t.is_conjoinable, x in (('conj',), ('punc',)), 'is_conjoinable')
    y = cat(c, 1)
    u = to_ccg(y)
    for r, w in ((t / u if hasattr(t, '__truediv__') else t.over(u),
                  ('/', x, y)), (t.over(u), ('/', x, y)),
                 (t << u, ('/', x, y)), (t.under(u), ('\\', x, y)),
                 (u >> t, ('\\', x, y)),
                 (t.slash('/', u), ('/', x, y)),
                 (t.slash('\\', u), ('\\', x, y))):
        c.eq(from_ccg(r), w, 'slash', str(r))
    g = t.to_grammar()
    c.eq(flat(g), flat_cat(x), 'to_grammar', str(t))
    # replace
    subs = []

    def walk(v):
        subs.append(v)
        if is_cx(v):
            walk(v[1])
            walk(v[2])
    walk(x)
    o = c.choice(subs) if c.p(.8) else cat(c, 1)
    c.ev('replace')
    c.eq(from_ccg(t.replace(to_ccg(o), u)), repl(x, o, y), 'replace',
         f'{text(o)} by {text(y)} in {text(x)}')
    c.eq(from_ccg(t), x, 'altered')
    # replace_result along the chain of results
    if is_cx(x):
        spine, v = [], x
        while is_cx(v):
            spine.append(v)
            v = v[1]
        results = [w[1] for w in spine]
        c.ev('replace_result')
        k = c.int(0, len(results) - 1)
        o = results[k]
        k = results.index(o)
        want = y
        for w in reversed(spine[:k + 1]):
            want = (w[0], want, w[2])
        new, old = t.replace_result(to_ccg(o), u)
        c.eq((from_ccg(new), from_ccg(old)), (want, o), 'replace_result',
             f'{text(o)} by {text(y)} in {text(x)}')
        # one direction required for every operator down to the target
        d = c.choice('/\\')
        ok = all(w[0] == d for w in spine[:k + 1])
        if ok:
            new, old = t.replace_result(to_ccg(o), u, d)
            c.eq((from_ccg(new), from_ccg(old)), (want, o),
                 'replace_result-direction', f'{text(x)} {d}')
        if all(w[0] != d for w in spine):
            new, old = t.replace_result(to_ccg(o), u, d)
            c.check(old is None, 'replace_result-direction', f'{text(x)} {d}')
            c.eq(from_ccg(new), x, 'replace_result-direction', text(x))
        missing = ('zz',)
        new, old = t.replace_result(to_ccg(missing), u)
        want = y
        for w in reversed(spine):
            want = (w[0], want, w[2])
        c.eq((from_ccg(new), from_ccg(old)), (want, results[-1]),
             'replace_result-innermost', text(x))
        c.raises(ValueError, lambda: t.replace_result(u, u, c.choice(
            ['', 'x', '///', '|x'])), 'invalid-direction')
        # split around a result
        c.ev('split')
        b = c.choice([x] + results)
        l, m, r = t.split(to_ccg(b))
        le, ri, v = (), (), x
        while v != b:
            if v[0] == '/':
                from vf.sem import rotate_seq
                ri = rotate_seq(flat_cat(v[2]), -1) + ri
            else:
                from vf.sem import rotate_seq
                le = le + rotate_seq(flat_cat(v[2]), 1)
            v = v[1]
        c.eq((flat(l), flat(m), flat(r)), (le, flat_cat(b), ri), 'split',
             f'{text(x)} at {text(b)}')
        c.eq(flat(l) + flat(m) + flat(r), flat_cat(x), 'split-total')


def empty(c):
    e = CCGType()
    c.check(e.is_empty and not e.is_atomic and not e.is_complex, 'empty')
    c.eq(flat(e.to_grammar()), (), 'empty-grammar')
    x = to_ccg(cat(c))
    t = x.slash(c.choice('/\\'), e) if c.p(.5) else e.slash('/', x)
    c.eq(t.replace(to_ccg(('zz',)), x), t, 'replace-empty')
    c.eq(e.replace(e, x), x, 'replace-empty')
    c.eq(e.replace_result(x, x)[1], None, 'replace-empty')
    c.raises(CCGParseError, lambda: CCGType.parse(c.choice(
        ['', '()', '[conj]', '/', '(', ')', '(()', 'a/', '\\b', '()/a'])),
        'not-refused')
    c.sig('empty', str(t))


FAMILIES = [Family('roundtrip', roundtrip, 3000),
            Family('mutate', mutate, 8000), Family('chained', chained, 1500),
            Family('parts', parts, 3000), Family('empty', empty, 200)]
