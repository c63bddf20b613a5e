"""P01 types form a free pregroup: every public type operation is compared
with the same operation on the flat (name, winding) sequence."""
import copy

from vf.core import Family
from vf.gen import flat, mk, rand_seq
from vf.sem import rotate_seq

RULE = ('a case counts as distinct non-trivial by the flat sequence of the '
        'types and the operations applied to them; empty and length-1 types '
        'without adjoints are excluded')
REQUIRED = ['tensor', 'rotate', 'insert', 'replace', 'slice', 'eq_pairs',
            'refused', 'program_step', 'dim', 'quantum_ty']
ASSUMPTIONS = ['atomic type names do not imitate the printed notation '
               '(dots, @, brackets) in the distinct-printing check']
NAMES = ['n', 's', 'p', 'q', 'conj', 'N', 'punc,']


def gty(seq):
    return mk(seq)


def laws(c):
    from lambeq.backend.grammar import Ty
    sa, sb, sc = (rand_seq(c, 0, 4, NAMES, 4) for _ in range(3))
    a, b, d = mk(sa), mk(sb), mk(sc)
    c.note([sa, sb, sc])
    if len(sa) > 1 or any(z for _, z in sa):
        c.sig('laws', sa, sb, sc)
    c.sample([sa, sb])
    c.ev('tensor')
    c.eq(flat(a @ b), tuple(sa + sb), 'tensor', 'a@b')
    c.eq(flat((a @ b) @ d), tuple(sa + sb + sc), 'assoc', '(a@b)@c')
    c.eq((a @ b) @ d, a @ (b @ d), 'assoc', 'associativity')
    c.eq(a.tensor(b, d), a @ b @ d, 'tensor-nary', 'n-ary tensor')
    c.eq(a.tensor([b, d]) if len(sb) + len(sc) >= 0 else None, a @ b @ d,
         'tensor-list', 'tensor of a list')
    c.eq(a @ Ty(), a, 'unit', 'right unit')
    c.eq(Ty() @ a, a, 'unit', 'left unit')
    c.ev('rotate')
    c.eq(flat(a.l), rotate_seq(sa, -1), 'left-adjoint', 'a.l')
    c.eq(flat(a.r), rotate_seq(sa, 1), 'right-adjoint', 'a.r')
    c.eq(a.l.r, a, 'adjoint-inverse', 'a.l.r')
    c.eq(a.r.l, a, 'adjoint-inverse', 'a.r.l')
    c.eq((a @ b).l, b.l @ a.l, 'adjoint-antihom', '(a@b).l')
    c.eq((a @ b).r, b.r @ a.r, 'adjoint-antihom', '(a@b).r')
    i, j = c.int(-5, 5), c.int(-5, 5)
    c.eq(flat(a.rotate(i)), rotate_seq(sa, i), 'rotate', f'rotate({i})')
    c.eq(a.rotate(i).rotate(j), a.rotate(i + j), 'rotate-compose',
         f'rotate({i}).rotate({j})')
    c.eq(flat(a << b), tuple(sa) + rotate_seq(sb, -1), 'over', 'a<<b')
    c.eq(flat(a >> b), rotate_seq(sa, 1) + tuple(sb), 'under', 'a>>b')
    k = c.int(0, 4)
    c.eq(flat(a ** k), tuple(sa) * k, 'repeat', f'a**{k}')
    c.eq(flat(a.repeat(k)), tuple(sa) * k, 'repeat', f'repeat({k})')
    c.raises(Exception, lambda: a ** -1, 'refuse-negative-power', 'a**-1')
    # nothing above altered the operands
    c.eq((flat(a), flat(b), flat(d)), (tuple(sa), tuple(sb), tuple(sc)),
         'operands-altered', 'operands')


def sequence_ops(c):
    from lambeq.backend.grammar import Ty
    sa, sb = rand_seq(c, 0, 6, NAMES, 3), rand_seq(c, 0, 3, NAMES, 3)
    a, b = mk(sa), mk(sb)
    n = len(sa)
    c.note([sa, sb])
    c.sig('seq', sa, sb)
    c.eq(len(a), n, 'len', 'len')
    c.eq(tuple(x for t in a for x in flat(t)), tuple(sa), 'iter', 'iter')
    c.eq(a.is_empty, n == 0, 'is_empty')
    c.eq(a.is_atomic, n == 1, 'is_atomic')
    c.eq(a.is_complex, n > 1, 'is_complex')
    for _ in range(6):
        i, j = c.int(-n - 2, n + 2), c.int(-n - 2, n + 2)
        i, j = c.choice([i, None]), c.choice([j, None])
        st = c.choice([None, 1, -1, 2, -2, 3])
        c.ev('slice')
        c.eq(flat(a[i:j:st]), tuple(sa[i:j:st]), 'slice', f'[{i}:{j}:{st}]')
    for i in range(-n, n):
        c.eq(flat(a[i]), (sa[i],), 'index', f'[{i}]')
    for i in (n, n + 3, -n - 1):
        c.ev('refused')
        c.raises(IndexError, lambda: a[i], 'refuse-index', f'[{i}] of {sa}')
    for i in range(n + 1):
        c.ev('insert')
        c.eq(flat(a.insert(b, i)), tuple(sa[:i] + sb + sa[i:]), 'insert',
             f'insert({sb}, {i}) into {sa}')
    for i in range(-n, 0):       # negative positions count from the end
        c.eq(flat(a.insert(b, i)), tuple(sa[:i] + sb + sa[i:]),
             'insert-negative', f'insert({sb}, {i}) into {sa}')
    c.ev('refused')
    c.raises(IndexError, lambda: a.insert(b, n + 1 + c.int(0, 3)),
             'refuse-insert', f'insert beyond {sa}')
    for i in range(n):
        c.ev('replace')
        c.eq(flat(a.replace(b, i)), tuple(sa[:i] + sb + sa[i + 1:]),
             'replace', f'replace({sb}, {i}) in {sa}')
    c.ev('refused')
    c.raises(IndexError, lambda: a.replace(b, n + 1 + c.int(0, 3)),
             'refuse-replace', f'replace beyond {sa}')
    c.raises(IndexError, lambda: a.replace(b, -1 - c.int(0, n)),
             'refuse-replace', f'replace before {sa}')
    for s in set(sa):
        c.eq(a.count(mk([s])), sa.count(s), 'count', f'count {s}')
    if n == 1:
        c.eq(flat(a.unwind()), ((sa[0][0], 0),), 'unwind')
    c.eq(flat(a), tuple(sa), 'operands-altered', 'a')
    c.eq(flat(b), tuple(sb), 'operands-altered', 'b')
    c.eq(copy.copy(a), a, 'copy')
    c.eq(Ty() if n == 0 else a[:], a, 'slice-all')


def equality(c):
    # small alphabet so that equal types are common
    names = ['n', 's']
    tys = []
    for _ in range(12):
        s = rand_seq(c, 0, 3, names, 1)
        via = c.int(0, 3)
        if via == 0:
            t = mk(s)
        elif via == 1:
            k = c.int(0, len(s))
            t = mk(s[:k]) @ mk(s[k:])
        elif via == 2:
            z = c.int(-3, 3)
            t = mk(rotate_seq(s, -z)).rotate(z)
        else:
            t = mk(s + [('x', 0)])[:len(s)]
        tys.append((tuple(s), t))
    c.note([s for s, _ in tys])
    for s1, t1 in tys:
        for s2, t2 in tys:
            c.ev('eq_pairs')
            c.eq(t1 == t2, s1 == s2, 'equality', f'{s1} vs {s2}')
            c.eq(t1 != t2, s1 != s2, 'inequality', f'{s1} vs {s2}')
            if s1 == s2:
                c.eq(hash(t1), hash(t2), 'hash', f'{s1}')
                c.eq(repr(t1), repr(t2), 'repr', f'{s1}')
                c.eq(str(t1), str(t2), 'str', f'{s1}')
            else:
                c.check(repr(t1) != repr(t2), 'repr-distinct',
                        lambda: f'{s1} and {s2} print {t1!r}')
                c.check(str(t1) != str(t2), 'str-distinct',
                        lambda: f'{s1} and {s2} print {t1}')
    d = {}
    for s, t in tys:
        d[t] = s
    c.eq(len(d), len({s for s, _ in tys}), 'dict-keys', 'types as keys')
    c.sig('eq', tys)


def program(c):
    """A long history of operations on a pool of types, each mirrored on
    flat sequences."""
    pool = [(tuple(s), mk(s)) for s in
            (rand_seq(c, 0, 3, NAMES, 2) for _ in range(4))]
    trace = []
    for _ in range(40):
        (sa, a), (sb, b) = c.choice(pool), c.choice(pool)
        op = c.choice(['@', 'l', 'r', 'rot', 'slice', 'ins', 'rep', '<<',
                       '>>', 'pow', 'rev'])
        if op == '@':
            s, t = sa + sb, a @ b
        elif op == 'l':
            s, t = rotate_seq(sa, -1), a.l
        elif op == 'r':
            s, t = rotate_seq(sa, 1), a.r
        elif op == 'rot':
            z = c.int(-4, 4)
            s, t = rotate_seq(sa, z), a.rotate(z)
        elif op == 'slice':
            i, j = c.int(-4, 4), c.int(-4, 6)
            s, t = sa[i:j], a[i:j]
        elif op == 'ins':
            i = c.int(0, len(sa))
            s, t = sa[:i] + sb + sa[i:], a.insert(b, i)
        elif op == 'rep':
            if not sa:
                continue
            i = c.int(0, len(sa) - 1)
            s, t = sa[:i] + sb + sa[i + 1:], a.replace(b, i)
        elif op == '<<':
            s, t = sa + rotate_seq(sb, -1), a << b
        elif op == '>>':
            s, t = rotate_seq(sa, 1) + sb, a >> b
        elif op == 'pow':
            k = c.int(0, 3)
            s, t = sa * k, a ** k
        else:
            s, t = sa[::-1], a[::-1]
        trace.append(op)
        if len(s) > 24:
            continue
        s = tuple(s)
        c.ev('program_step')
        c.eq(flat(t), s, f'program', f'{op} on {sa} {sb}')
        c.eq(t, mk(s), 'program-eq', f'{op} on {sa} {sb}')
        c.eq(hash(t), hash(mk(s)), 'program-hash', f'{op} on {sa} {sb}')
        pool.append((s, t))
        if len(pool) > 10:
            pool.pop(c.int(0, 9))
    for s, t in pool:
        c.eq(flat(t), s, 'operands-altered', 'pool entry changed later')
    c.sig('prog', trace, [s for s, _ in pool])


def dims(c):
    from lambeq.backend.tensor import Dim
    ds = [c.choice([1, 1, 2, 2, 3, 4, 5, 7, 10]) for _ in range(c.int(0, 5))]
    es = [c.choice([1, 2, 3, 12]) for _ in range(c.int(0, 4))]
    nz = [x for x in ds if x > 1]
    ne = [x for x in es if x > 1]
    a, b = Dim(*ds), Dim(*es)
    c.note([ds, es])
    c.sig('dim', ds, es)
    c.ev('dim')
    c.eq(a.dim if nz else (), tuple(nz), 'dim-tuple', ds)
    p = 1
    for x in nz:
        p *= x
    c.eq(a.product, p, 'dim-product', ds)
    c.eq(len(a), len(nz), 'dim-len')
    c.eq((a @ b).dim, tuple(nz + ne), 'dim-tensor')
    c.eq(a == b, nz == ne, 'dim-eq', f'{ds} {es}')
    if nz == ne:
        c.eq(hash(a), hash(b), 'dim-hash')
    else:
        c.check(repr(a) != repr(b), 'dim-repr', f'{ds} {es}')
    z = c.int(-3, 3)
    c.eq(a.rotate(z).dim, tuple(nz[::-1] if z % 2 else nz), 'dim-rotate')
    c.eq(a.l.r, a, 'dim-adjoint')
    for i in range(len(nz)):
        c.eq(a[i].dim, (nz[i],), 'dim-index')
        c.eq(a.replace(b, i).dim, tuple(nz[:i] + ne + nz[i + 1:]),
             'dim-replace', f'{ds} {es} {i}')
    for i in range(len(nz) + 1):
        c.eq(a.insert(b, i).dim, tuple(nz[:i] + ne + nz[i:]), 'dim-insert')
        c.eq(a[:i].dim + a[i:].dim, tuple(nz), 'dim-slice')
    k = c.int(0, 3)
    c.eq((a ** k).dim, tuple(nz) * k, 'dim-repeat')


def quantum_tys(c):
    from lambeq.backend.quantum import qubit, bit, Ty
    s = [c.choice('qb') for _ in range(c.int(0, 6))]
    s2 = [c.choice('qb') for _ in range(c.int(0, 3))]
    m = {'q': qubit, 'b': bit}

    def build(s):
        t = Ty()
        for x in s:
            t = t @ m[x]
        return t

    def fl(t):
        return [{'qubit': 'q', 'bit': 'b'}[o.label] for o in t]
    a, b = build(s), build(s2)
    c.note([s, s2])
    c.sig('q', s, s2)
    c.ev('quantum_ty')
    c.eq(fl(a), s, 'q-iter')
    c.eq(fl(a @ b), s + s2, 'q-tensor')
    c.eq(len(a), len(s), 'q-len')
    c.eq(fl(a.l), s[::-1], 'q-left')
    c.eq(fl(a.r), s[::-1], 'q-right')
    c.eq(a.l.r, a, 'q-adjoint')
    c.eq(a == b, s == s2, 'q-eq', f'{s} {s2}')
    c.eq(a != b, s != s2, 'q-neq', f'{s} {s2}')
    if s == s2:
        c.eq(hash(a), hash(b), 'q-hash')
    else:
        c.check(repr(a) != repr(b), 'q-repr', f'{s} {s2}')
    for i in range(len(s)):
        c.eq(fl(a[i]), [s[i]], 'q-index')
    for i in range(len(s) + 1):
        c.eq(fl(a[:i]), s[:i], 'q-slice')
        c.eq(fl(a.insert(b, i)), s[:i] + s2 + s[i:], 'q-insert')
    c.eq(a.count(qubit), s.count('q'), 'q-count')
    c.eq(a.count(bit), s.count('b'), 'q-count')
    k = c.int(0, 3)
    c.eq(fl(a ** k), s * k, 'q-repeat')
    c.eq(a.product, 2 ** len(s), 'q-product')


FAMILIES = [
    Family('laws', laws, 1500), Family('sequence_ops', sequence_ops, 1500),
    Family('equality', equality, 400), Family('program', program, 400),
    Family('dims', dims, 800), Family('quantum_tys', quantum_tys, 600),
]
