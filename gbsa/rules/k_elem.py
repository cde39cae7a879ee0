"""K08: printed sentences; K09: comparison, search, copies and flattening of semantic tree elements."""
from .k_tree import *
from ..loader import Program

STUB = '''
class Traversal(object):
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])

    def get_root(self, tree):
        return tree

    def get_text(self, node):
        return str(node)


class DictTraversal(Traversal):
    def get_children(self, node):
        return list(node[1].items())

    def get_root(self, tree):
        return list(tree.items())[0]

    def get_text(self, node):
        return node[0]


class AttributeTraversal(Traversal):
    attribute = 'children'

    def get_children(self, node):
        return getattr(node, self.attribute)


class LeftAligned(object):
    def __init__(self, traverse=None, draw=None):
        self.traverse = traverse if traverse is not None else DictTraversal()

    def render(self, node, depth):
        lines = ['    ' * depth + self.traverse.get_text(node)]
        for c in self.traverse.get_children(node):
            lines += self.render(c, depth + 1)
        return lines

    def __call__(self, tree):
        return '\\n'.join(self.render(self.traverse.get_root(tree), 0))
'''


def printed(a):
    out = []
    for n in a.by('call'):
        f = n.data['func']
        if f.op == 'ext' and f.a[0] == 'print':
            out.append(tuple(const_of(x) for x in n.data['args']))
    return out


def sayings(t, side='*'):
    """preorder: (word, pos, dep, depth, side) with left dependents before right"""
    out = [(t[0], t[1], t[2], 0, side)]
    for s, kids in (('L', t[3]), ('R', t[4])):
        for k in kids:
            out += [(w, p, d, n + 1, x) for w, p, d, n, x in sayings(k, s)]
    return out


def textcode(t, ent):
    w, pos, dep, l, r = t
    return 'tok(%r, %r, %r, [%s], [%s], ent=%r)' % (w, pos, dep, ', '.join(textcode(x, ent) for x in l), ', '.join(textcode(x, ent) for x in r), ent)


def rename(t, f):
    return (f(t[0]),) + t[1:3] + tuple(tuple(rename(x, f) for x in k) for k in t[3:5])


def inorder(t, pre):
    """driver lines that bind every token to a variable, and the names in sentence order"""
    lines, order = [], []

    def go(t):
        l = [go(x) for x in t[3]]
        v = 'v%d' % len(lines)
        me = len(lines)
        lines.append(None)
        order_l = [x for x in l]
        r = [go(x) for x in t[4]]
        lines[me] = (v, t, order_l, r)
        return v
    root = go(t)
    by = {v: (t, l, r) for v, t, l, r in lines}
    out = []

    def emit(v):
        t, l, r = by[v]
        for x in l + r:
            emit(x)
        out.append('%s = tok(%r, %r, %r, [%s], [%s], %r, ent=%r)' % (v, t[0], t[1], t[2], ', '.join(l), ', '.join(r), 'zz', 'GPE' if t[1] == 'PROPN' else ''))
    emit(root)

    def walk_(v):
        t, l, r = by[v]
        for x in l:
            walk_(x)
        order.append(v)
        for x in r:
            walk_(x)
    walk_(root)
    return out, order


def k08(prog, rep, tier):
    rep.rules.append('the lines printed for every dependency tree of bounded size, with and without siblings that read the same, are its tokens in order, '
                     'each marked by its side and further in than its head; a sentence without a root, or without tokens, prints no tree and does not fail')
    if not need(prog, rep, 'gb.nlp.sentence', 'gb.nlp.nlp_token'):
        return
    p2 = Program(prog.root)
    p2.load('<asciitree>', 'asciitree', STUB)
    p2.load('<asciitree.traversal>', 'asciitree.traversal', 'from asciitree import Traversal, DictTraversal, AttributeTraversal\n')
    for n, step in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1 if tier == 'thorough' else 23)):
        for k, sh in enumerate(shapes(n)):
            if k % step:
                continue
            for name, f in (('distinct words', lambda w: w), ('one word', lambda w: 'very')):
                ps = ['VERB', 'NOUN', 'PROPN', 'ADV', 'PUNCT', 'SPACE'][:n]
                ds = ('ROOT', 'dep', 'dep', 'adv', 'punct', 'dep')[:n] if name == 'distinct words' else ('ROOT',) + ('dep',) * (n - 1)
                if name == 'one word':
                    ps = ['ADV'] * n
                t = rename(label(sh, ds, ps, [0]), f)
                lines, order = inorder(t, '')
                a = drive(p2, rep, TREE, '\n'.join(lines + ['Sentence([%s]).print_tree()' % ', '.join(order), 'return 1']), 'print_tree: ' + told(t), lines=())
                check_print(a, rep, t)
    for t in ODD_PRINTED:
        lines, order = inorder(t, '')
        a = drive(p2, rep, TREE, '\n'.join(lines + ['Sentence([%s]).print_tree()' % ', '.join(order), 'return 1']), 'print_tree: ' + told(t), lines=())
        check_print(a, rep, t)
    # one sentence after another, and the same one twice
    t, u = ODD_PRINTED[0], ODD_PRINTED[1]
    for ts in ((t, u), (u, t), (t, t)):
        lines, calls = [], []
        for i, x in enumerate(ts):
            ls, order = inorder(x, '')
            lines += ls + ['s%d = Sentence([%s])' % (i, ', '.join(order))]
            calls.append('s%d.print_tree()' % i)
        a = drive(p2, rep, TREE, '\n'.join(lines + calls[:1] + calls + ['return 1']), 'print_tree of several', lines=())
        check_print(a, rep, ts[0], ts[0], ts[1])
    for what, code in (('no tokens', 'Sentence([]).print_tree()'), ('no root', "Sentence([tok('a', 'NOUN', 'dep'), tok('b', 'NOUN', '')]).print_tree()")):
        a = drive(p2, rep, TREE, code + '\nreturn 1', 'print_tree: ' + what, lines=())
        for r in outcomes(a, rep):
            if r[0] != 'v':
                rep.bad('printing fails', 'Sentence.print_tree', '%s: raises %s' % (what, r[1]))
            elif any(x for n in a.by('call') if n.data['func'] == mk('ext', 'print') for x in n.data['args'] if not (is_c(x) and not str(cv(x)).strip())):
                rep.bad('a tree is printed', 'Sentence.print_tree', '%s: something is printed' % what)
            else:
                rep.ok('sentences without a tree')
    # the text of a sentence
    a = drive(p2, rep, TREE, "return str(Sentence([tok('a'), tok(' b '), tok('c')]))", 'str of a sentence')
    verdict(a, rep, 'Sentence.__str__', 'text of a sentence', 'three tokens', lambda v: None if v == 'a b c' else 'it is %r' % (v,), 'texts of sentences')
    for what, ws in TEXTS:
        toks = ', '.join('tok(%r, %r, %r, lemma="zz"%s)' % (w, p, d, ', ent="GPE"' if p == 'PROPN' else '') for w, p, d in ws)
        a = drive(p2, rep, TREE, "return str(Sentence([%s]))" % toks, 'str of %s' % what, unroll=2000)
        want = ' '.join(w.strip() for w, _p, _d in ws)
        verdict(a, rep, 'Sentence.__str__', 'text of a sentence', what, lambda v, want=want: None if v == want else 'it is %r' % (v,), 'texts of sentences')
    a = drive(p2, rep, TREE, "return str(Sentence([]))", 'str of an empty sentence')
    verdict(a, rep, 'Sentence.__str__', 'text of a sentence', 'no tokens', lambda v: None if v == '' else 'it is %r' % (v,), 'texts of sentences')


def t_(w, pos='NOUN', dep='dep', l=(), r=()):
    return (w, pos, dep, tuple(l), tuple(r))


LONG = 'Llanfairpwllgwyngyllgogerychwyrndrobwllllantysiliogogogoch' * 2
DEEP = t_('p0')
for _i in range(1, 15):
    DEEP = t_('p%d' % _i, 'NOUN', 'dep' if _i < 14 else 'ROOT', [DEEP] if _i % 2 else [], [] if _i % 2 else [DEEP])
ODD_PRINTED = [DEEP,
    t_('w0', 'VERB', 'ROOT', [t_('w%d' % i, 'NOUN', 'l%d' % i) for i in range(1, 13)], [t_('w%d' % i, 'ADJ', 'r%d' % i) for i in range(13, 29)]),
    t_('u', 'VERB', 'ROOT', [], [t_('v', 'NOUN', 'dobj', [t_('l%d' % i) for i in range(12)], [t_('r%d' % i) for i in range(12)])]),
    t_('v0', 'VERB', 'ROOT', [t_('v1', 'NOUN', 'nsubj', [t_('v2', 'DET', 'det')] * 1)], [t_('.', 'PUNCT', 'punct')]),
    t_('!', 'PUNCT', 'ROOT', [t_('w1')], [t_('w2')]),
    t_('-', 'SPACE', 'ROOT', [], [t_('w2', 'X', '')]),
    t_(LONG, 'PROPN', 'ROOT', [t_(LONG, 'PROPN', 'compound')], [t_(LONG, 'X', 'dep', [], [t_(LONG, 'NOUN', 'dobj')])]),
    t_('a b', 'NOUN', 'ROOT', [t_('[L]c'), t_('d/e'), t_('(f)')], [t_('g {h}'), t_('%s'), t_('{0}'), t_("it's"), t_('"'), t_('naïve'), t_('ROOT')]),
    t_('w0', 'NOUN', 'ROOT', [t_('w1', 'ROOT', 'nsubj')], [t_('w2', 'NOUN', 'conj', [t_('w3', 'CCONJ', 'cc')], [t_('w4', 'NOUN', 'conj', [], [t_('w5', 'NOUN', 'conj', [], [t_('w6', 'NOUN', 'conj', [], [t_('w7', 'PROPN', 'conj', [t_('w8')])])])])])]),
    t_('x', 'NOUN', 'ROOT', [t_('x', 'NOUN', 'dep'), t_('x', 'NOUN', 'dep'), t_('x', 'VERB', 'dep'), t_('x', 'NOUN', 'nsubj'), t_('X', 'NOUN', 'dep')], [t_('x', 'NOUN', 'dep'), t_('x', 'NOUN', 'dep')]),
    t_('x', 'NOUN', 'ROOT', [t_('y', 'NOUN', 'dep', [t_('z')]), t_('y', 'NOUN', 'dep', [], [t_('z'), t_('z')])], [t_('y', 'NOUN', 'dep', [t_('z')])]),
]
TEXTS = [
    ('sixty tokens', [('w%d' % i, 'NOUN', 'dep') for i in range(60)]),
    ('three hundred tokens', [('w%d' % (i % 7), 'NOUN', 'dep') for i in range(300)]),
    ('punctuation and spaces', [('a', 'NOUN', 'ROOT'), (',', 'PUNCT', 'punct'), ('  ', 'SPACE', ''), ('b', 'VERB', 'dep'), ('\n', 'SPACE', ''), ('.', 'PUNCT', 'punct')]),
    ('an empty word', [('a', 'NOUN', 'ROOT'), ('', 'X', 'dep'), ('b', 'VERB', 'dep')]),
    ('one word again and again', [('very', 'ADV', 'adv')] * 4),
    ('words in no order', [('Zed', 'PROPN', 'dep'), ('apple', 'NOUN', 'ROOT'), ('Mango', 'PROPN', 'dep'), ('apple', 'NOUN', 'dep'), ('Zed', 'PROPN', 'dep')]),
    ('a long word', [(LONG, 'PROPN', 'ROOT'), ('%s', 'SYM', ''), ('{0}', 'SYM', ''), ('naïve', 'ADJ', 'dep'), ("it's", 'X', 'dep')]),
    ('two sentences in one', [('a', 'VERB', 'ROOT'), ('b', 'NOUN', 'dep'), ('c', 'VERB', 'ROOT'), ('d', 'NOUN', 'dep')]),
]


def check_print(a, rep, *ts):
    t = ts[0]
    rs = outcomes(a, rep)
    if not rs:
        return
    if rs[0][0] != 'v':
        rep.bad('printing fails', 'Sentence.print_tree', '%s: raises %s' % (told(t), rs[0][1]))
        return
    try:
        out = printed(a)
    except ValueError:
        rep.undec('%s: printed text' % a.label)
        return
    if any(not isinstance(x, str) for o in out for x in o):
        rep.undec('%s: printed text' % a.label)
        return
    lines = [l for o in out for l in ' '.join(o).split('\n') if l.strip()]
    want = [x for t in ts for x in sayings(t)]
    if len(lines) != len(want):
        rep.bad('tokens printed', 'Sentence.print_tree', '%s: %d lines for %d tokens' % (told(t), len(lines), len(want)))
        return
    cols = []
    for l, (w, p, d, depth, side) in zip(lines, want):
        if w not in l or p not in l or d not in l or p == 'PROPN' and 'GPE' not in l:
            rep.bad('tokens printed', 'Sentence.print_tree', '%s: the line %r stands for the token %s/%s (%s)' % (told(t), l.strip(), w, p, d))
            return
        if '[%s]' % side not in l:
            rep.bad('side printed', 'Sentence.print_tree', '%s: the line %r lacks the mark [%s]' % (told(t), l.strip(), side))
            return
        cols.append(l.index('[%s]' % side))
    for i in range(1, len(cols)):
        if (cols[i] > cols[i - 1]) != (want[i][3] > want[i - 1][3]) or (cols[i] == cols[i - 1]) != (want[i][3] == want[i - 1][3]):
            rep.bad('heads printed', 'Sentence.print_tree', '%s: the line %r is not under its head' % (told(t), lines[i].strip()))
            return
    rep.ok('printed trees')


# ------------------------------------------------------------------ K09
# a shape is 'a'..'z' (a leaf), or (compound, [shapes])
def terms(depth, width):
    if depth == 0:
        yield 'x'
        return
    yield 'x'
    for n in range(0, width + 1):
        for kids in itertools.product(list(terms(depth - 1, width)), repeat=n):
            yield (False, list(kids))


def lab(sh, ctr, comp=None):
    if sh == 'x':
        ctr[0] += 1
        return 'w%d' % (ctr[0] - 1)
    i = ctr[1]
    ctr[1] += 1
    return (bool(comp and comp >> i & 1), [lab(k, ctr, comp) for k in sh[1]])


def build(sh, lines, ctr):
    """driver lines building the element; returns its variable"""
    ctr[0] += 1
    v = 'q%d' % ctr[0]
    if isinstance(sh, str):
        lines.append('%s = t.create_leaf(T[%r])' % (v, sh))
    else:
        kids = [build(k, lines, ctr) for k in sh[1]]
        lines.append('%s = t.create_node([%s])' % (v, ', '.join(k + '.id' for k in kids)))
        if sh[0]:
            lines.append('%s.compound = True' % v)
    return v


def effective(sh, c=False):
    """the compound setter reaches all nodes below"""
    if isinstance(sh, str):
        return sh
    c = c or sh[0]
    return (c, [effective(k, c) for k in sh[1]])


def leafs(sh):
    return [sh] if isinstance(sh, str) else [x for k in sh[1] for x in leafs(k)]


def text(sh):
    if isinstance(sh, str):
        return sh
    return '_'.join(text(k) for k in sh[1]) if sh[0] else '(%s)' % ' '.join(text(k) for k in sh[1])


def plainshape(sh):
    return sh if isinstance(sh, str) else tuple(plainshape(k) for k in sh[1])


def flattened(sh):
    if isinstance(sh, str):
        return sh
    out = []
    for k in sh[1]:
        k = flattened(k)
        if isinstance(k, str) or k[0]:
            out.append(k)
        else:
            out += k[1]
    return (sh[0], out)


def sh_show(sh):
    return text(sh) if isinstance(sh, str) or not sh[0] else '[%s]' % text(sh)


ELEM = TREE + '''

def dump(t, eid):
    e = t.get(eid)
    if e.is_leaf():
        return e.token.word
    return (e.compound, [dump(t, c) for c in e.children_ids])


def nodes_below(t, eid):
    e = t.get(eid)
    if e.is_leaf():
        return []
    out = [e]
    for c in e.children_ids:
        out += nodes_below(t, c)
    return out
'''


def tup_of(sh):
    return sh if isinstance(sh, str) else (sh[0], tuple(tup_of(k) for k in sh[1]))


def k09(prog, rep, tier):
    rep.rules.append('over every element of bounded depth and width, compounds marked in every way: leaves left to right, text, arity, search by part of speech and by '
                     'label (deep and shallow), a copy equal to and separate from the original, equality exactly of the same shape over equal tokens, '
                     'flattening that keeps the leaves in order and dissolves exactly the plain nodes')
    if not need(prog, rep, 'gb.knowledge.semantic_tree', 'gb.nlp.nlp_token'):
        return
    els = []
    for sh in terms(2, 2):
        ctr = [0, 0]
        lab(sh, ctr)
        nn = ctr[1]
        for comp in range(1 << nn):
            x = lab(sh, [0, 0], comp)
            if comp and effective(x) != x and tier == 'quick':
                continue
            els.append(x)
    big = [(False, ['w0', (False, ['w1', (False, ['w2', (False, ['w3', 'w4'])])]), (True, ['w5', 'w6']), 'w7', 'w8', 'w9', (False, ['w10'])]),
           (False, [(False, [(True, ['w0', 'w1']), 'w2']), (False, ['w3', (False, ['w4', (True, ['w5', 'w6'])])])])]
    for x in els + big + WIDE:
        one_element(prog, rep, x)
    pairs(prog, rep, els, tier)
    odd_pairs(prog, rep)
    marking(prog, rep, tier)


WIDE = [(False, ['w%d' % i for i in range(14)]),
        (True, ['w%d' % i for i in range(14)]),
        (False, ['w0', (False, ['w%d' % i for i in range(1, 13)]), 'w13', (True, ['w%d' % i for i in range(14, 26)]), 'w26']),
        (False, ['w0', 'w0']), (False, ['w0', 'w1', 'w0', (False, ['w0', 'w1', 'w1']), (True, ['w1', 'w0']), 'w1']),
        (False, [(False, []), 'w0', (True, []), (False, [(False, []), 'w1'])]),
        (False, [(False, ['w%d' % (i % 3), (False, ['w%d' % (i % 2)])]) for i in range(12)]),
        (False, ['w0', (False, ['w1', (False, ['w2', (False, ['w3', (False, ['w4', (False, ['w5', (False, ['w6', (False, ['w7', 'w8'])])])])])])])])]


def firsts(ls):
    return list(dict.fromkeys(ls))


def one_element(prog, rep, x):
    ls = leafs(x)
    lines = ['t = Tree()', 'T = {%s}' % ', '.join("%r: tok(%r, 'P%d', 'd%d')" % (w, w, i, i) for i, w in enumerate(firsts(ls)))]
    v = build(x, lines, [0])
    x = effective(x)
    node = not isinstance(x, str)
    name = sh_show(x)
    lines += ['r = [[l.token.word for l in %s.flat_leafs()], str(%s), %s.is_leaf(), %s.is_node(), %s.arity()]' % (v, v, v, v, v)]
    want = [tuple(ls), text(x), not node, node, (1 if not node or x[0] else len(x[1]))]
    labels = ['leaves', 'text', 'being a leaf', 'being a node', 'arity']
    lines += ['r.append(%s.is_terminal())' % v, 'r.append(%s.is_not_terminal())' % v]
    term = not node or x[0]
    want += [term, not term]
    labels += ['being terminal', 'not being terminal']
    for i, w in list(enumerate(firsts(ls))) + [(99, None)]:
        for meth, p in (('has_pos', 'P'), ('has_dep', 'd')):
            for shallow in (False, True):
                lines.append("r.append(%s.%s('%s%d', %s))" % (v, meth, p, i, shallow))
                want.append(w is not None and (not shallow or not node or w in x[1]))
                labels.append('%s%s of %s' % (meth, ' (shallow)' if shallow else '', w or 'something else'))
    # copies
    lines += ['c = %s.clone()' % v, 'r.append(c == %s)' % v, 'r.append(c != %s)' % v, 'r.append(dump(t, c.id))', 'r.append(dump(t, %s.id))' % v,
              'r.append(any([m is k for m in nodes_below(t, c.id) for k in nodes_below(t, %s.id)]))' % v,
              'extra = t.create_leaf(tok("extra"))', 'for m in nodes_below(t, c.id):', '    m.add_child(extra.id)', 'r.append(dump(t, %s.id))' % v]
    want += [True, False, tup_of(x), tup_of(x), False, tup_of(x)]
    labels += ['a copy being equal', 'a copy being different', 'the copy', 'the original after copying', 'copies sharing nodes', 'the original after changing the copy']
    if node:
        lines += ['%s.flatten()' % v, 'r.append(dump(t, %s.id))' % v, '%s.compound = True' % v,
                  'r.append(all([m.compound for m in nodes_below(t, %s.id)]))' % v, '%s.compound = False' % v,
                  'r.append(any([m.compound for m in nodes_below(t, %s.id)]))' % v]
        want += [tup_of(flattened(x)), True, False]
        labels += ['flattening', 'marking as compound reaching all below', 'unmarking as compound leaving one below']
    lines.append('return r')
    a = drive(prog, rep, ELEM, '\n'.join(lines), name)

    def good(v):
        for got, w, l in zip(v, want, labels):
            if got != w or isinstance(w, bool) != isinstance(got, bool):
                return '%s: %s instead of %s' % (l, short_(got), short_(w))
        return None
    verdict(a, rep, 'Element', 'operations of elements', name, good, 'elements')


def short_(x):
    s = repr(x)
    return s if len(s) < 90 else s[:87] + '...'


def pairs(prog, rep, els, tier):
    """equality of every two elements of the same number of leaves or less, with tokens that agree, or differ in one respect"""
    plain = []
    for x in els:
        if plainshape(x) not in [plainshape(y) for y in plain]:
            plain.append(x)
    step = 1 if tier == 'thorough' else 3
    k = 0
    for x, y in itertools.product(plain, repeat=2):
        same = plainshape(x) == plainshape(y)
        k += 1
        if not same and k % step:
            continue
        for how in (('equal tokens', 'another word', 'another part of speech', 'another label') if same else ('equal tokens',)):
            n = max([len(leafs(x)), len(leafs(y))])
            for at in (range(n) if how != 'equal tokens' else (None,)):
                lines = ['t = Tree()', "T = {%s}" % ', '.join("'w%d': tok('w%d', 'P', 'd')" % (i, i) for i in range(n))]
                v = build(x, lines, [0])
                other = ["'w%d': tok(%r, %r, %r)" % (i, 'w%d' % i if i != at or how != 'another word' else 'other', 'P' if i != at or how != 'another part of speech' else 'Q',
                                                    'd' if i != at or how != 'another label' else 'e') for i in range(n)]
                lines.append('T = {%s}' % ', '.join(other))
                u = build(y, lines, [100])
                lines.append('return [%s == %s, %s != %s, %s == %s]' % (v, u, v, u, u, v))
                a = drive(prog, rep, ELEM, '\n'.join(lines), '%s and %s, %s' % (sh_show(x), sh_show(y), how))
                eq = same and at is None
                verdict(a, rep, 'Element.__eq__', 'equality of elements', a.label,
                        lambda r, eq=eq: None if r == (eq, not eq, eq) else '%s' % (r,), 'comparisons')


def odd_pairs(prog, rep):
    """tokens with unusual strings, and wide elements"""
    strings = ['', 'a', 'A', 'ab', 'b', 'a ', ' a', 'á', 'NOUN', '0']
    toks = [(w, 'P', 'd') for w in strings] + [('a', p, 'd') for p in strings] + [('a', 'P', d) for d in strings] + [('P', 'a', 'd'), ('d', 'P', 'a'), ('a', 'd', 'P')]
    for i, x in enumerate(toks):
        ys = toks if i % 5 == 0 else [x, toks[(i * 7 + 3) % len(toks)], toks[(i + 1) % len(toks)]]
        for y in ys:
            lines = ['t = Tree()', 'p = t.create_leaf(tok(%r, %r, %r, lemma="l1", ent="e"))' % x, 'q = t.create_leaf(tok(%r, %r, %r, lemma="l2"))' % y,
                     "o = t.create_leaf(tok('o'))", 'm = t.create_node([o.id, p.id])', 'n = t.create_node([o.id, q.id])',
                     'return [p == q, p != q, p.token == q.token, m == n, m != n, m == q, m != q, q == m]']
            a = drive(prog, rep, ELEM, '\n'.join(lines), 'leaves %r and %r' % (x, y))
            e = x == y
            verdict(a, rep, 'Element.__eq__', 'equality of elements', a.label, lambda r, e=e: None if r == (e, not e, e, e, not e, False, True, False) else '%s' % (r,), 'comparisons')
    n = 14
    base = ['w%d' % i for i in range(n)]
    variants = [('the same', base)] + [('another leaf %d' % i, base[:i] + ['x'] + base[i + 1:]) for i in range(n)]
    variants += [('a leaf less', base[:-1]), ('a leaf more', base + ['x']), ('two leaves swapped', base[:5] + [base[6], base[5]] + base[7:]), ('the first leaf again', base + [base[0]]),
                 ('reversed', base[::-1]), ('a leaf repeated', base[:-1] + [base[0]])]
    for what, other in variants:
        for inner in (False, True):
            lines = ['t = Tree()', 'def el(ws):', '    return t.create_node([t.create_leaf(tok(w)).id for w in ws])', 'p = el(%r)' % base, 'q = el(%r)' % other]
            if inner:
                lines += ["p = t.create_node([t.create_leaf(tok('r')).id, p.id])", "q = t.create_node([t.create_leaf(tok('r')).id, q.id])"]
            lines.append('return [p == q, p != q, q == p]')
            a = drive(prog, rep, ELEM, '\n'.join(lines), 'nodes of %d leaves, %s%s' % (n, what, ', inside' if inner else ''))
            e = base == other
            verdict(a, rep, 'Element.__eq__', 'equality of elements', a.label, lambda r, e=e: None if r == (e, not e, e) else '%s' % (r,), 'comparisons')


def marking(prog, rep, tier):
    """marks set one after the other at different nodes of a nested element"""
    def below(i):
        return {'p': 'pqrs', 'q': 'qr', 'r': 'r', 's': 's'}[i]
    lines0 = ['t = Tree()', "l = [t.create_leaf(tok('w%d' % i)) for i in range(6)]", 'r = t.create_node([l[0].id, l[1].id])', 'q = t.create_node([l[2].id, r.id])',
              's = t.create_node([l[3].id])', 'p = t.create_node([q.id, l[4].id, s.id, l[5].id])']
    ops = [(x, v) for x in 'pqrs' for v in (True, False)]
    for seq in itertools.chain.from_iterable(itertools.product(ops, repeat=k) for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))):
        if len(seq) > 2 and any(x == y for x, y in zip(seq, seq[1:])):
            continue
        state = dict.fromkeys('pqrs', False)
        lines = list(lines0)
        for x, v in seq:
            lines.append('%s.compound = %r' % (x, v))
            for y in below(x):
                state[y] = v
        lines.append('return [p.compound, q.compound, r.compound, s.compound, p.is_terminal(), q.is_compound()]')
        want = tuple(state[y] for y in 'pqrs') + (state['p'], state['q'])
        a = drive(prog, rep, ELEM, '\n'.join(lines), ', '.join('%s %s' % ('mark' if v else 'unmark', x) for x, v in seq))
        verdict(a, rep, 'Node.compound', 'marks of compounds', a.label, lambda r, want=want: None if r == want else 'the marks are %s instead of %s' % (r, want), 'marks')
