"""P11 CCGbank files are read faithfully."""
import os
import re
import shutil
import tempfile
from collections import Counter

from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccgbank_parser import (CCGBankParseError,
                                                CCGBankParser)

from vf.ccg import derivation, from_ccg, is_cx, to_ccg
from vf.core import Family
from vf.sem import any_key, typing_error

RULE = 'distinct entry texts and (fault kind, position class) combinations'
REQUIRED = ['section_read', 'entry_ok', 'sentence_read', 'escaped_bracket',
            'conj_suffix', 'suppressed', 'raised', 'fault_truncate',
            'fault_delete_char', 'fault_replace_char', 'fault_insert_char',
            'fault_drop_line', 'fault_join_lines', 'fault_bad_category',
            'fault_id', 'fault_bad_bytes', 'fault_file_end', 'fault_accepted',
            'diagrams', 'multi_file', 'gen_prefix', 'odd_fix']
WORDS = ['Pierre', 'Vinken', "'s", '%', '1/2', 'a\\b', 'naïve', '日本', 'π',
         'N/A', '<s>', '``', "''", '--', '&', '-LRB-', '-RRB-', '-LCB-',
         '-RCB-', '$', '\\/', 'and', '2,000', 'x|y', '<L', 'ID=3', '(', ')',
         '[', 'S[dcl]', '\U0001f600', '-LRB', 'LRB-', '-lrb-',
         '-LRB-x', 'a-RRB-', '-LRB--RRB-', 'x-LCB-y']
ESC = {'-LRB-': '(', '-RRB-': ')', '-LCB-': '{', '-RCB-': '}'}
MAP = {'n': ['N', 'N', 'N[num]'], 'np': ['NP', 'NP[nb]', 'NP[expl]', 'NP'],
       's': ['S[dcl]', 'S', 'S[b]', 'S[adj]', 'S[ng]'], 'p': ['PP', 'PP'],
       'conj': ['conj'], 'punc': [',', '.', ':', ';', 'LRB', 'RRB']}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vf_p11_')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def cat_text(c, cat, top=True):
    if not is_cx(cat):
        return c.choice(MAP[cat[0]])
    if top is True and cat[0] == '\\' and cat[1] == cat[2] and c.p(.6):
        c.ev('conj_suffix')
        return cat_text(c, cat[1], top='x') + '[conj]'
    t = cat_text(c, cat[1], False) + cat[0] + cat_text(c, cat[2], False)
    return t if top else f'({t})'


def node_text(c, n):
    """(text, expected) of a derivation node."""
    t = cat_text(c, n.cat)
    if not n.children:
        w = n.word
        if w in ESC:
            c.ev('escaped_bracket')
        pos = c.choice(['NN', 'NNP', ',', '-LRB-', 'VBZ', 'IN'])
        s = f'(<L {t} {pos} {c.choice(["NN", "XX", pos])} {w} {t}_1>) '
        return s, (n.cat, ESC.get(w, w))
    kids = [node_text(c, k) for k in n.children]
    head = c.int(0, 1)
    s = (f'(<T {t} {head} {len(kids)}> ' + ''.join(k[0] for k in kids) + ') ')
    return s, (n.cat, tuple(k[1] for k in kids))


def entry(c, leaves=5):
    d = derivation(c, leaves=leaves, unary=c.choice([False, True]),
                   vocab=WORDS)
    # words of punctuation leaves may be brackets too
    for lf in d.leaves():
        if c.p(.3):
            lf.word = c.choice(WORDS)
    s, want = node_text(c, d)
    return s.strip() if c.p(.5) else s, want


def observed(t):
    cat = from_ccg(t.biclosed_type)
    if not t.children:
        return (cat, t.text)
    return (cat, tuple(observed(k) for k in t.children))


def show(t):
    return 'None' if t is None else repr(observed(t))[:300]


def same_tree(c, tree, want, what):
    c.check(tree is not None, 'entry-lost', lambda: f'{what}: no tree for '
                                                    f'{want!r:.300}')
    got = observed(tree)
    c.check(got == want, 'entry-misread',
            lambda: f'{what}: {got!r:.500} instead of {want!r:.500}')

    def rules(t):
        if t.children:
            ts = [to_ccg(from_ccg(k.biclosed_type)) for k in t.children]
            c.eq(t.rule, CCGRule.infer_rule(
                ts, to_ccg(from_ccg(t.biclosed_type))), 'rule-mismatch', what)
            for k in t.children:
                rules(k)
    rules(tree)
    c.ev('entry_ok')


# --- a permissive reading of a line, for accepted corrupted entries --------
LEAF = re.compile(r'\(<L\s+(\S+)\s+\S+\s+\S+\s+(\S+)\s+\S+>\)\s*')
NODE = re.compile(r'\(<T\s+(\S+)\s+[01]\s+\d+>\s*')


def balanced(line):
    """Whether the line is one complete bracketing of leaves and nodes,
    allowing one arbitrary character after each closing bracket."""
    pos, depth, words = 0, 0, []
    while True:
        m = LEAF.match(line, pos)
        if m:
            words.append(ESC.get(m[2], m[2]))
            pos = m.end()
        else:
            m = NODE.match(line, pos)
            if m:
                depth += 1
                pos = m.end()
                continue
            return None
        while depth and line[pos:pos + 1] == ')':
            pos += 2
            depth -= 1
        if depth == 0:
            return words if pos >= len(line) else None
        if pos >= len(line):
            return None


def ident(c, k):
    if c.p(.3):
        return c.choice(['wsj', 'é', '00', 'a=b', '(x)', 'ID']) + c.choice(
            ['-', ':', '/', '#', '=']) + f'{c.int(0, 9)}.{k}'
    return f'wsj_{c.int(0, 2499):04}.{k}'


def write(root, section, files):
    d = os.path.join(root, 'data', 'AUTO', f'{section:02}')
    os.makedirs(d)
    for name, content in files.items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(content if isinstance(content, bytes)
                    else content.encode('utf-8'))


def id_line(c, i):
    return f'ID={i}' + c.choice([' PARSER=GOLD NUMPARSE=1', '', ' x',
                                 ' PARSER=GOLD'])


def clean(c):
    with Scratch() as root:
        section = c.int(0, 24)
        files, want, k = {}, {}, 0
        for f in range(c.int(1, 3)):
            lines = []
            for _ in range(c.int(1, 4)):
                k += 1
                s, w = entry(c)
                i = ident(c, k)
                lines += [id_line(c, i), s]
                want[i] = w
                c.sig(s)
            nl = c.choice(['\n', '\n', '\r\n'])
            files[f'wsj_{f:04}.auto'] = nl.join(lines) + (nl if c.p(.7)
                                                          else '')
        if len(files) > 1:
            c.ev('multi_file')
        write(root, section, files)
        c.sample(next(iter(files.values())))
        c.note(files)
        p = CCGBankParser(c.choice([root, str(root)]))
        sup = c.p(.5)
        trees = p.section2trees(section, suppress_exceptions=sup)
        c.ev('section_read')
        c.eq(list(trees), list(want), 'identifiers')
        for i, w in want.items():
            same_tree(c, trees[i], w, i)
        # the diagrams are those of the trees
        dia = p.section2diagrams(section, planar=c.p(.3),
                                 suppress_exceptions=True)
        c.eq(list(dia), list(want), 'identifiers', 'diagrams')
        for i, d in dia.items():
            try:
                ref = trees[i].to_diagram()
            except Exception:
                continue
            if d is None:
                try:
                    trees[i].to_diagram(planar=True)
                except Exception:
                    continue
                c.fail('diagram-lost', i)
            c.check(typing_error(d) is None, 'diagram-ill-typed', i)
            c.eq(d.cod, ref.cod, 'diagram-codomain', i)
            got = [b.name for b in d.boxes if type(b).__name__ == 'Word']
            leaves = words_of(trees[i])
            c.check(not (Counter(got) - Counter(leaves)),
                    'diagram-words', lambda: f'{got} from {leaves}')
            c.ev('diagrams')


def words_of(t):
    if not t.children:
        return [t.text]
    return [w for k in t.children for w in words_of(k)]


def sentences(c):
    p = CCGBankParser('/nonexistent')
    batch, want = [], []
    for _ in range(c.int(1, 4)):
        s, w = entry(c, leaves=c.int(1, 9))
        if c.p(.3):
            # documented repair of a mistake in the corpus
            s, w = ('(<L ((S[b]\\NP)/NP)/ VB VB get ((S[b]\\NP)/NP)/>)',
                    (('/', ('\\', ('s',), ('n',)), ('n',)), 'get'))
            s = '(<T S[b]\\NP 0 2> ' + s + ' (<L NP NN NN it NP>) )'
            w = (('\\', ('s',), ('np',)),
                 ((('/', ('\\', ('s',), ('np',)), ('np',)), 'get'),
                  (('np',), 'it')))
            c.ev('odd_fix')
        else:
            s = s.strip()
        c.sig(s)
        batch.append(s)
        want.append(w)
    c.note(batch)
    one = p.sentence2tree(batch[0], suppress_exceptions=c.p(.5))
    same_tree(c, one, want[0], 'sentence2tree')
    trees = p.sentences2trees(list(batch), suppress_exceptions=c.p(.5))
    c.eq(len(trees), len(batch), 'batch-length')
    for t, w in zip(trees, want):
        same_tree(c, t, w, 'sentences2trees')
        c.ev('sentence_read')
    c.raises(ValueError, lambda: p.sentences2trees(batch, tokenised=True),
             'tokenised-accepted')


# --- faults ----------------------------------------------------------------
GARBAGE = ['<', '>', '(', ')', ' ', 'T', 'L', '0', '9', '\\', '/', '[', ']',
           'x', '\t', 'é', '{', 'NP']


def corrupt(c, lines, e):
    """Damage entry `e` (lines 2e, 2e+1).  Returns (kind, bytes lines,
    damaged entries, verdict) where verdict is 'bad' when the entry cannot
    be well formed any more, else 'open'."""
    kind = c.choice(['truncate', 'delete_char', 'replace_char',
                     'insert_char', 'drop_line', 'join_lines',
                     'bad_category', 'id', 'bad_bytes', 'file_end'])
    ls = list(lines)
    t = ls[2 * e + 1]
    core = t.rstrip()
    hit, verdict = {e}, 'open'
    if kind == 'truncate':
        k = c.int(0, max(0, len(core) - 1))
        ls[2 * e + 1] = t[:k]
        verdict = 'bad'
    elif kind == 'delete_char':
        k = c.int(0, len(core) - 1)
        ls[2 * e + 1] = t[:k] + t[k + 1:]
    elif kind == 'replace_char':
        k = c.int(0, len(core) - 1)
        ls[2 * e + 1] = t[:k] + c.choice(GARBAGE) + t[k + 1:]
    elif kind == 'insert_char':
        k = c.int(0, len(core))
        ls[2 * e + 1] = t[:k] + c.choice(GARBAGE) + t[k:]
    elif kind == 'drop_line':
        if c.p(.5):
            del ls[2 * e + 1]
            verdict = 'bad'
        else:
            del ls[2 * e]
            verdict = 'gone'
    elif kind == 'join_lines':
        ls[2 * e] = ls[2 * e] + ' ' * c.int(1, 2) + ls[2 * e + 1]
        del ls[2 * e + 1]
        verdict = 'joined'
    elif kind == 'bad_category':
        ms = list(re.finditer(r'(?<=<[LT] )\S+', t))
        m = c.choice(ms)
        bad = c.choice(['Q', '(S', 'S)', 'N//N', 'S[DCL]', '', 'N/', '/N',
                        'NP\\', '((N)', 'N/N/N', 'adj'])
        ls[2 * e + 1] = t[:m.start()] + bad + t[m.end():]
        verdict = 'bad'
    elif kind == 'id':
        i = ls[2 * e]
        ls[2 * e] = c.choice([i.replace('ID=', 'ID ', 1), i[1:], '',
                              i.replace('ID=', 'id=', 1), ' ' + i, 'ID='])
        verdict = 'gone'
    elif kind == 'bad_bytes':
        k = c.int(0, len(core) - 1)
        b = t.encode()
        k = min(k, len(b) - 1)
        ls[2 * e + 1] = (b[:k] + bytes([c.choice([0x80, 0xff, 0xc3, 0xfe])])
                         + b[k:])
        try:
            ls[2 * e + 1].decode()
        except UnicodeDecodeError:
            verdict = 'bad'
    elif kind == 'file_end':
        del ls[2 * e + 1:]
        hit = set(range(e, len(lines) // 2))
        verdict = 'end'
    return kind, ls, hit, verdict


def faults(c):
    with Scratch() as root:
        n = c.int(1, 5)
        ids, wants, lines = [], [], []
        for k in range(n):
            s, w = entry(c, leaves=c.int(1, 5))
            ids.append(ident(c, k))
            wants.append(w)
            lines += [id_line(c, ids[-1]), s]
        e = c.int(0, n - 1)
        kind, ls, hit, verdict = corrupt(c, lines, e)
        c.ev('fault_' + kind)
        raw = [x if isinstance(x, bytes) else x.encode() for x in ls]
        content = b'\n'.join(raw) + (b'\n' if c.p(.7) else b'')
        other, ow = entry(c)
        oid = ident(c, 99)
        write(root, 3, {'a.auto': content,
                        'b.auto': f'{id_line(c, oid)}\n{other}\n'})
        c.note(f'fault {kind} in entry {e} of {n}: {content!r:.1500}')
        c.sample(f'{kind} {raw[min(2 * e + 1, len(raw) - 1)]!r:.200}')
        c.sig(kind, e, n, len(raw[min(2 * e + 1, len(raw) - 1)]))
        p = CCGBankParser(root)
        # with errors suppressed: the others are undisturbed
        try:
            trees = p.section2trees(3, suppress_exceptions=True)
        except Exception as ex:
            c.fail('suppressed-but-raised', repr(ex))
        c.ev('suppressed')
        keys = [i for k, i in enumerate(ids)]
        expect = [i for k, i in enumerate(ids)
                  if k not in hit or verdict in ('open', 'bad')
                  or (verdict == 'joined')
                  or (verdict == 'end' and k == e)] + [oid]
        c.eq([i for i in trees if i in keys + [oid]], expect, 'identifiers',
             f'{kind}')
        for k, i in enumerate(ids):
            if k not in hit:
                same_tree(c, trees[i], wants[k], f'other entry {k} ({kind})')
        same_tree(c, trees[oid], ow, 'entry of another file')
        t = trees.get(ids[e])
        if verdict in ('bad', 'joined', 'end'):
            c.check(t is None, 'malformed-accepted',
                    lambda: f'{kind}: {show(t)}')
        elif t is not None:
            accepted(c, kind, t, raw[2 * e + 1])
        # without suppression: documented error, entries before it intact
        got, err = {}, None
        try:
            for i, tr in p.section2trees_gen(3):
                got[i] = tr
        except CCGBankParseError as ex:
            err = ex
            c.ev('raised')
        except Exception as ex:
            c.fail('wrong-error', f'{kind}: {ex!r}')
        bad = verdict != 'open' or t is None
        c.check((err is not None) == bad, 'error-mismatch',
                lambda: f'{kind}: raised {err!r} although suppressed result '
                        f'is {show(t)}')
        if bad:
            c.eq(list(got), ids[:e], 'entries-before-error', kind)
            for k in range(e):
                same_tree(c, got[ids[k]], wants[k], 'before the error')
            c.ev('gen_prefix')
            str(err)
        # the sentence interface on the damaged text
        if verdict in ('open', 'bad') and kind not in ('bad_bytes',
                                                       'drop_line'):
            txt = ls[2 * e + 1].strip()
            one = p.sentence2tree(txt, suppress_exceptions=True)
            c.eq(one is None, t is None, 'sentence-vs-section', kind)
            if one is None:
                c.raises(CCGBankParseError,
                         lambda: p.sentence2tree(txt), 'wrong-error', kind)
                mix = p.sentences2trees(
                    [txt, other.strip(), txt], suppress_exceptions=True)
                c.check(len(mix) == 3 and mix[0] is None
                        and mix[2] is None, 'batch-disturbed', kind)
                same_tree(c, mix[1], ow, 'other sentence of the batch')
        dia = p.section2diagrams(3, suppress_exceptions=True)
        c.eq(list(dia), list(trees), 'identifiers', 'diagrams')
        for i in trees:
            if trees[i] is None:
                c.check(dia[i] is None, 'malformed-accepted', 'diagram')


def accepted(c, kind, t, raw):
    line = raw.decode().strip()
    ws = balanced(line)
    c.check(ws is not None, 'malformed-accepted',
            lambda: f'{kind}: {line!r} -> {show(t)}')
    c.eq(words_of(t), ws, 'entry-misread', kind)
    c.ev('fault_accepted')


FAMILIES = [Family('clean', clean, 320, 6000),
            Family('sentences', sentences, 320, 6000),
            Family('faults', faults, 1600, 40000)]
