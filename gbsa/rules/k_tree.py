"""K01 to K07: semantic trees and the stages of the extractor, interpreted over small trees built by the drivers."""
import itertools

from .model import *

TREE = '''
from gb.nlp.nlp_token import Token
from gb.nlp.sentence import Sentence
from gb.knowledge.semantic_tree import Tree, Position


def tok(word, pos='NOUN', dep='nsubj', left=(), right=(), lemma=None, ent=''):
    t = Token()
    t.word = word
    t.lemma = lemma if lemma is not None else word
    t.shape = 'x'
    t.logprob = 0
    t.pos = pos
    t.dep = dep
    t.parent = None
    t.left_children = list(left)
    t.right_children = list(right)
    t.entity_type = ent
    for c in t.left_children:
        c.parent = t
    for c in t.right_children:
        c.parent = t
    return t


def leaves(tree, eid):
    e = tree.get(eid)
    if e.is_leaf():
        return [e.token.word]
    out = []
    for c in e.children_ids:
        out += leaves(tree, c)
    return out


def shape(tree, eid):
    e = tree.get(eid)
    if e.is_leaf():
        return e.token.word
    return tuple([shape(tree, c) for c in e.children_ids])


def everything(tree, eid):
    e = tree.get(eid)
    if e.is_leaf():
        return (e.token.word, e.namespace)
    return (e.compound, e.namespace, tuple([everything(tree, c) for c in e.children_ids]))
'''


def need(prog, rep, *mods):
    miss = [m for m in mods if m not in prog.modules]
    for m in miss:
        rep.undec('no module %s' % m)
    return not miss


def verdict(a, rep, cons, what, name, good, kind):
    """good(value) -> None if right, else what is wrong"""
    for r in outcomes(a, rep):
        if r[0] == 'r':
            rep.bad('recursion without end', cons, '%s: %s' % (name, r[1]))
        elif r[0] == 'x':
            rep.bad('the operation fails', cons, '%s: raises %s' % (name, r[1]))
        else:
            w = good(r[1])
            if w:
                rep.bad(what, cons, '%s: %s' % (name, w))
            else:
                rep.ok(kind)


# ------------------------------------------------------------------ K01
K01 = '''

class Book(object):
    """what identifiers ought to denote"""
    def __init__(self, tree):
        self.t = tree
        self.wrong = []

    def check(self, what, *live):
        ids = []
        for name, e in live:
            if e.id in ids:
                self.wrong.append('%s: the identifier of %s is also that of another element' % (what, name))
            ids.append(e.id)
            if self.t.get(e.id) is not e:
                self.wrong.append('%s: the identifier of %s denotes something else' % (what, name))

    def same(self, what, a, b):
        if a is not b:
            self.wrong.append(what)

    def eq(self, what, a, b):
        if a != b:
            self.wrong.append(what)
'''


def k01(prog, rep, tier):
    rep.rules.append('after every sequence of tree operations of bounded length the identifier of each live element is its own and denotes it, an identifier that '
                     'denoted an enclosed element denotes the enclosing node, whose only child is the element, and dissolving a node undoes that')
    if not need(prog, rep, 'gb.knowledge.semantic_tree', 'gb.nlp.nlp_token'):
        return
    n = 3 if tier == 'quick' else 4
    for ops in itertools.chain.from_iterable(itertools.product(range(len(OPS)), repeat=k) for k in range(1, n + 1)):
        lines = ['t = Tree()', 'b = Book(t)', "a = t.create_leaf(tok('a'))", "c = t.create_leaf(tok('c'))", 'n = t.create_node([a.id, c.id])',
                 't.root_id = n.id', 'u = Tree()', "d = u.create_leaf(tok('d'))", "b.check('at the start', ('the first leaf', a), ('the second leaf', c), ('the node', n))"]
        w = World()
        ok = True
        names = []
        for i, o in enumerate(ops):
            r = OPS[o](w, i)
            if r is None:
                ok = False
                break
            names.append(r[0])
            lines += r[1]
            lines.append('b.check(%r, %s)' % ('after ' + ', '.join(names), ', '.join('(%r, %s)' % (w.desc[v], v) for v in w.live)))
            for v in w.live:
                if v in w.kids:
                    lines.append('b.eq(%r, [t.get(x) is y for x, y in zip(%s.children_ids, [%s])] + [len(%s.children_ids)], %r)' % (
                        'after %s: %s has other children than it should' % (', '.join(names), w.desc[v]), v, ', '.join(w.kids[v]), v,
                        [True] * len(w.kids[v]) + [len(w.kids[v])]))
                else:
                    lines.append('b.same(%r, %s.token, %s)' % ('after %s: %s has another token' % (', '.join(names), w.desc[v]), v, w.tok[v]))
        if not ok:
            continue
        lines += ['b.same("the identifier of an element of another tree denotes something else", u.get(d.id), d)', 'return b.wrong']
        a = drive(prog, rep, TREE + K01, '\n'.join(lines), ', '.join(names))
        verdict(a, rep, 'Tree', 'identifiers of elements', ', '.join(names), lambda v: v[0] if v else None, 'identifiers after operations')
    for n in (70, 300, 1100):
        k01_many(prog, rep, n)


def k01_many(prog, rep, n):
    """a tree of many elements, with many changes after each other"""
    body = ['t = Tree()', 'es = []', 'for i in range(%d):' % n, '    es.append(t.create_leaf(tok("w")) if i %% 3 else t.create_node([es[-1].id] if es else []))',
            'wrong = []', 'ids = [e.id for e in es]', 'if len(set(ids)) != len(ids):', '    wrong.append("two elements have the same identifier")',
            'for e in es:', '    if t.get(e.id) is not e:', '        wrong.append("the identifier of an element denotes something else")',
            'x = es[1]', 'at = x.id', 'around = []', 'for i in range(40):', '    y = t.enclose(x)', '    around.append(y)', '    if t.get(at) is not y or y.id != at or t.get(x.id) is not x:',
            '        wrong.append("after enclosing again and again an identifier denotes something else")', '    x = y',
            'if t.get(es[1].id) is not es[1] or es[1].id in [e.id for e in es if e is not es[1]]:', '    wrong.append("after enclosing again and again the first element is lost")',
            'for y in reversed(around):', '    inner = t.get(y.children_ids[0])', '    t.disenclose(y)', '    if t.get(at) is not inner:', '        wrong.append("dissolving one by one")',
            'if t.get(at) is not es[1]:', '    wrong.append("after dissolving all the identifier denotes something else")', 'return wrong']
    a = drive(prog, rep, TREE, '\n'.join(body).replace('%%', '%'), 'a tree of %d elements' % n, unroll=2000, max_steps=4000000)
    verdict(a, rep, 'Tree', 'identifiers of elements', 'a tree of %d elements' % n, lambda v: v[0] if v else None, 'identifiers after operations')


class World(object):
    """the specification: elements, and the children of nodes as elements"""
    def __init__(self):
        self.live = ['a', 'c', 'n']
        self.desc = {'a': 'the first leaf', 'c': 'the second leaf', 'n': 'the node'}
        self.kids = {'n': ['a', 'c']}
        self.tok = {'a': 'a.token', 'c': 'c.token'}
        self.parent_of_slot = {}

    def replace(self, old, new, but=None):
        for v in self.kids:
            if v != but:
                self.kids[v] = [new if x == old else x for x in self.kids[v]]


def op_leaf(w, i):
    v = 'l%d' % i
    w.live.append(v)
    w.desc[v] = 'leaf %d' % i
    w.tok[v] = 'k%d' % i
    return 'a new leaf', ["k%d = tok('w')" % i, '%s = t.create_leaf(k%d)' % (v, i)]


def op_node(w, i):
    v = 'm%d' % i
    w.live.append(v)
    w.desc[v] = 'node %d' % i
    w.kids[v] = []
    return 'a new node', ['%s = t.create_node()' % v]


def op_push(w, i):
    v = 'l%d' % i
    w.live.append(v)
    w.desc[v] = 'leaf %d' % i
    w.tok[v] = 'k%d' % i
    w.kids['n'].append(v)
    return 'a leaf added to the node', ["k%d = tok('w')" % i, '%s = t.create_leaf(k%d)' % (v, i), 'n.add_child(%s.id)' % v]


def enclosing(x):
    def op(w, i):
        if x not in w.live:
            return None
        v = 'e%d' % i
        w.replace(x, v)
        w.live.append(v)
        w.desc[v] = 'the node around %s' % w.desc[x]
        w.kids[v] = [x]
        return '%s enclosed' % w.desc[x], ['old = %s.id' % x, '%s = t.enclose(%s)' % (v, x), 'b.eq("the old identifier does not denote the new node", t.get(old) is %s, True)' % v,
                                           'b.eq("the new node does not carry the old identifier", %s.id, old)' % v]
    return op


def op_disenclose(w, i):
    for v in reversed(w.live):
        if v in w.kids and len(w.kids[v]) == 1 and v.startswith('e'):
            x = w.kids[v][0]
            w.live.remove(v)
            w.kids.pop(v)
            w.replace(v, x)
            return '%s dissolved' % w.desc[v], ['old = %s.id' % v, 't.disenclose(%s)' % v, 'b.same("the identifier of the dissolved node does not denote what it held", t.get(old), %s)' % x]
    return None


def op_to_leaf(w, i):
    v, e = 'l%d' % i, 'x%d' % i
    if not any('a' in k for k in w.kids.values()):
        return None
    w.live += [v, e]
    w.desc[v] = 'leaf %d' % i
    w.desc[e] = 'the node made by adding to a leaf'
    w.tok[v] = 'k%d' % i
    w.replace('a', e)
    w.kids[e] = ['a', v]
    return 'a leaf added to the first leaf', ["k%d = tok('w')" % i, '%s = t.create_leaf(k%d)' % (v, i), 'old = a.id', 'a.add_child(%s.id)' % v, '%s = t.get(old)' % e]


OPS = [op_leaf, op_node, op_push, enclosing('a'), enclosing('c'), enclosing('n'), op_disenclose, op_to_leaf]


# ------------------------------------------------------------------ K02
NESTING = ['aux', 'det', 'amod', 'advmod', 'poss', 'nummod', 'auxpass', 'cc', 'agent']
ADDING = ['nsubj', 'dobj', 'pobj', 'conj', 'attr']
FIRST = ['compound', 'pcomp']


def shapes(n):
    """ordered trees with n tokens as (left children, right children)"""
    def forests(k):
        if k == 0:
            yield ()
            return
        for i in range(1, k + 1):
            for t in shapes(i):
                for r in forests(k - i):
                    yield (t,) + r
    for k in range(n):
        for l in forests(k):
            for r in forests(n - 1 - k):
                yield (l, r)


def size(t):
    return 1 + sum(size(x) for x in t[0] + t[1])


def label(t, classes, poss, ctr):
    """attach to each token its word, part of speech and dependency"""
    i = ctr[0]
    ctr[0] += 1
    return ('w%d' % i, poss[i], classes[i], tuple(label(x, classes, poss, ctr) for x in t[0]), tuple(label(x, classes, poss, ctr) for x in t[1]))


def code(t, lemma=None, ent=None):
    w, pos, dep, l, r = t
    return 'tok(%r, %r, %r, [%s], [%s]%s%s)' % (w, pos, dep, ', '.join(code(x, lemma, ent) for x in l), ', '.join(code(x, lemma, ent) for x in r),
                                                ', lemma=%r' % lemma[w] if lemma and w in lemma else '', ', ent=%r' % ent[w] if ent and w in ent else '')


def unsaid(t):
    return [p + t[0] for p in ('', 'lemma_', 'ent_', 'dep_')] + [x for k in t[3] + t[4] for x in unsaid(k)]


def loosely(t, deps):
    """the driver expression of a token whose word, lemma and entity type - and dependency label, except for the root and silent ones - are any strings"""
    w, pos, dep, l, r = t
    d = 'dep_' + w if deps and dep not in ('', 'punct', 'ROOT') else repr(dep)
    return 'tok(%s, %r, %s, [%s], [%s], lemma=lemma_%s, ent=ent_%s)' % (w, pos, d, ', '.join(loosely(x, deps) for x in l), ', '.join(loosely(x, deps) for x in r), w, w)


def told(t, deps=False):
    w, pos, dep, l, r = t
    s = '%s:%s/%s' % (w, pos, '*' if deps and dep not in ('', 'punct', 'ROOT') else dep or '-')
    if l or r:
        s += '[%s|%s]' % (' '.join(told(x, deps) for x in l), ' '.join(told(x, deps) for x in r))
    return s


def placed(t):
    out = [t[0]]
    for x in t[3] + t[4]:
        if x[2] not in ('', 'punct'):
            out += placed(x)
    return out


def words_of(t):
    return [t[0]] + [w for x in t[3] + t[4] for w in words_of(x)]


def deps_of(t):
    return [t[2]] + [w for x in t[3] + t[4] for w in deps_of(x)]


def silent(t):
    return any((x[2] in ('', 'punct') and (x[3] or x[4])) or silent(x) for x in t[3] + t[4])


def dep_trees(n, classes, poss):
    for sh in shapes(n):
        for cl in itertools.product(classes, repeat=n - 1):
            for ps in poss(n):
                t = label(sh, ('ROOT',) + cl, ps, [0])
                if not silent(t):
                    yield t


def real_dep(cls, i):
    return {'nest': NESTING[i % len(NESTING)], 'add': ADDING[i % len(ADDING)], 'first': FIRST[i % len(FIRST)]}.get(cls, cls)


def concrete(t, ctr):
    w, pos, dep, l, r = t
    ctr[0] += 1
    return (w, pos, real_dep(dep, ctr[0]), tuple(concrete(x, ctr) for x in l), tuple(concrete(x, ctr) for x in r))


def k02(prog, rep, tier):
    rep.rules.append('in the tree the first stage makes of every dependency tree of bounded size, read from its root, every word except punctuation and words without '
                     'dependency occurs once, and no other')
    if not need(prog, rep, 'gb.knowledge.stages.alpha', 'gb.knowledge.semantic_tree', 'gb.nlp.sentence'):
        return
    src = TREE + 'from gb.knowledge.stages.alpha import AlphaStage\n'
    ctr = [0]
    for n, classes, step in ((1, (), 1), (2, ('add', 'nest', 'first', 'prep', 'punct', ''), 1), (3, ('add', 'nest', 'first', 'prep', 'punct', ''), 1),
                             (4, ('add', 'nest', 'first', 'prep'), 7 if tier == 'quick' else 1), (5, ('add', 'nest', 'first', 'prep'), 1000003 if tier == 'quick' else 61)):
        for k, t in enumerate(dep_trees(n, classes, lambda m: (('VERB',) + ('NOUN',) * (m - 1), ('NOUN',) + ('VERB',) * (m - 1)))):
            if k % step != step // 2:
                continue
            labels = deps_of(t)
            t = concrete(t, ctr)
            cases = [False]
            if n < 4 and all(x in ('add', '', 'punct', 'ROOT') for x in labels):
                cases.append(True)
            for deps in cases:
                k02_tree(prog, rep, src, t, deps)


    for t in broad():
        t = concrete(t, ctr)
        k02_tree(prog, rep, src, t, False)


def broad():
    """sentences with many words of one kind at one word, or hanging from each other"""
    kinds = (('add',), ('nest',), ('first',), ('prep',), ('nest', 'first'), ('add', 'nest'), ('prep', 'add', 'first', 'nest'))
    for n in (5, 7, 9):
        for ks in kinds:
            for pos in ('VERB', 'NOUN'):
                kids = tuple(('w%d' % i, 'NOUN' if i % 2 else 'ADJ', ks[i % len(ks)], (), ()) for i in range(1, n + 1))
                yield ('w0', pos, 'ROOT', kids, ())
                yield ('w0', pos, 'ROOT', kids[:n // 2], kids[n // 2:])
                yield ('w0', 'NOUN' if pos == 'VERB' else 'VERB', 'ROOT', (), (('v', pos, 'add', kids[:2], kids[2:]),))
                t = ('w%d' % n, 'NOUN', ks[n % len(ks)], (), ())
                for i in range(n - 1, 0, -1):
                    t = ('w%d' % i, 'NOUN' if i % 2 else pos, ks[i % len(ks)]) + (((t,), ()) if i % 3 else ((), (t,)))
                yield ('w0', pos, 'ROOT', (t,), ())
                if n < 9:
                    for k1 in ('add', 'nest', 'first', 'prep'):
                        mid = ('v', 'NOUN' if n % 2 else pos, k1, kids[:2], kids[2:])
                        yield ('w0', pos, 'ROOT', (mid,), (('z', 'NOUN', 'add', (), ()),))
                        yield ('w0', 'NOUN', 'ROOT', (('y', 'NOUN', k1, (mid,), ()),), (('z', pos, 'nest', (), (('x', pos, 'first', (), ()),)),))


def k02_tree(prog, rep, src, t, deps):
    pre = ''.join('assume(dep_%s != %r)\nassume(dep_%s != %r)\nassume(dep_%s != %r)\n' % (w, '', w, 'punct', w, 'ROOT') for w in words_of(t)) if deps else ''
    a = drive(prog, rep, src, pre + 'st = AlphaStage()\ntree = st.process_sentence(Sentence(%s.to_list()))\nreturn leaves(tree, tree.root_id)' % loosely(t, deps),
              told(t, deps), unknown=unsaid(t))
    want = sorted(placed(t))

    def good(v):
        got = sorted(v)
        if got == want:
            return None
        twice = [x for x in want if got.count(x) > 1]
        miss = [x for x in want if x not in got]
        return ('the word %s is lost' % miss[0] if miss else 'the word %s occurs %d times' % (twice[0], got.count(twice[0])) if twice else
                'the word %s should not be there' % [x for x in got if x not in want][0])
    verdict(a, rep, 'AlphaStage.process_sentence', 'words of the tree', told(t, deps), good, 'dependency trees')


# ------------------------------------------------------------------ trees built directly
def plane(n):
    """trees with n leaves and no node of a single child: a leaf is None, a node a tuple"""
    if n == 1:
        yield None
    for parts in compositions(n):
        if len(parts) > 1:
            for kids in itertools.product(*[list(plane(k)) for k in parts]):
                yield tuple(kids)


def compositions(n):
    for i in range(1, n + 1):
        if i == n:
            yield (n,)
        else:
            for r in compositions(n - i):
                yield (i,) + r


def dress(sh, leafs, ctr):
    if sh is None:
        ctr[0] += 1
        return leafs[ctr[0] - 1]
    return [dress(x, leafs, ctr) for x in sh]


RELATIONS = ['VERB', 'ADV', 'ADP', 'PART']


def free(t):
    return [p + w for w in words(t) for p in ('', 'dep_', 'ent_', 'pos_', 'lemma_')]


# leaf: (word, pos, lemma, dep, entity type); loose: the word is any string; loose='all': so are dependency label, entity type, lemma, and the part of speech of an N
def build(t, marks=(), loose=False):
    """driver lines that build the tree in `tree`; nodes whose preorder number is in marks are compounds; leaves get a namespace"""
    lines = ['tree = Tree()']
    ctr = [0, 0]
    last = []

    def go(x):
        i = ctr[0]
        ctr[0] += 1
        if isinstance(x, tuple):
            args = [repr(x[0]), repr(x[1]), repr(x[3]), repr(x[2]), repr(x[4])]
            if loose:
                w = x[0]
                args[0] = w
            if loose == 'all':
                args[2], args[4] = 'dep_' + w, 'ent_' + w
                if x[1] == 'NOUN':
                    args[1] = 'pos_' + w
                    lines.extend('assume(pos_%s != %r)' % (w, p) for p in RELATIONS + ['DET'])
                if x[1] != 'DET' and x[2].startswith('l'):
                    args[3] = 'lemma_' + w
                if x[1] == 'DET' and x[2] not in ARTICLES:
                    args[3] = 'lemma_' + w
                    lines.extend('assume(lemma_%s != %r)' % (w, p) for p in ARTICLES)
            lines.append('e%d = tree.create_leaf(tok(%s, %s, %s, lemma=%s, ent=%s))' % ((i,) + tuple(args)))
            return i
        kids = [go(y) for y in x]
        lines.append('e%d = tree.create_node([%s])' % (i, ', '.join('e%d.id' % k for k in kids)))
        if i in marks:
            last.append('e%d.compound = True' % i)
        return i
    r = go(t)
    return lines + last + ['tree.root_id = e%d.id' % r]


def nodes_of(t):
    """preorder numbers of the inner nodes"""
    out, ctr = [], [0]

    def go(x):
        i = ctr[0]
        ctr[0] += 1
        if not isinstance(x, tuple):
            out.append(i)
            for y in x:
                go(y)
    go(t)
    return out


def words(t):
    return [t[0]] if isinstance(t, tuple) else [w for x in t for w in words(x)]


def text(t, marks=(), ctr=None):
    ctr = ctr or [0]
    i = ctr[0]
    ctr[0] += 1
    if isinstance(t, tuple):
        return '%s:%s:%s' % (t[0], t[1], t[2])
    return ('+' if i in marks else '') + '(%s)' % ' '.join(text(x, marks, ctr) for x in t)


def counted(want):
    want = sorted(want)

    def good(v):
        got = sorted(v)
        if got == want:
            return None
        for x in want:
            if x not in got:
                return 'the word %s is lost' % x
        for x in got:
            if x not in want:
                return 'the word %s should be gone' % x
            if got.count(x) > want.count(x):
                return 'the word %s occurs %d times' % (x, got.count(x))
    return good


ARTICLES = ['the', 'a', 'an']
OTHERS = [('DET', 'this'), ('NOUN', 'the'), ('PRON', 'a'), ('DET', 'some'), ('DET', ''), ('ADJ', 'an')]


def leaf_of(c, i, k):
    if c == 'A':
        return ('w%d' % i, 'DET', ARTICLES[k % 3], 'det', '')
    if c == 'O':
        p, l = OTHERS[k % len(OTHERS)]
        return ('w%d' % i, p, l, 'det', '')
    return ('w%d' % i, {'V': 'VERB', 'N': 'NOUN', 'P': 'ADP', 'R': 'ADV', 'T': 'PART'}[c], 'l%d' % i, 'nsubj', '')


def family(n, classes, step):
    k = 0
    for sh in plane(n):
        for cl in itertools.product(classes, repeat=n):
            k += 1
            if k % step == step // 2:
                yield dress(sh, [leaf_of(c, i, k + i) for i, c in enumerate(cl)], [0]), k


def wide(classes, last):
    """nodes of many children, the last two of which are a pair and a leaf"""
    for n in (5, 6, 8, 11):
        kids = [leaf_of(classes[i % len(classes)], i, i) for i in range(n - 1)]
        yield kids + [[leaf_of(c, n + i, n) for i, c in enumerate(last)]], 1
        yield kids[:1] + [[leaf_of(c, n + i, n) for i, c in enumerate(last)]] + kids[1:], 1
        yield [kids[:1] + [kids[1:]], [leaf_of(c, n + i, n) for i, c in enumerate(last)]], 1
    deep = leaf_of('N', 0, 0)
    for i in range(1, 9):
        deep = [leaf_of(last[0] if i % 3 == 0 else classes[i % len(classes)], i, i), deep]
        yield deep, 1


# ------------------------------------------------------------------ K04
def after_gamma(t):
    """(the leaf it becomes or None, the words kept)"""
    if isinstance(t, tuple):
        return t, [t[0]]
    kids = [after_gamma(x) for x in t]
    if len(kids) == 2 and kids[0][0] is not None and kids[0][0][1] == 'DET' and kids[0][0][2] in ARTICLES:
        return kids[1]
    return None, [w for _l, ws in kids for w in ws]


def k04(prog, rep, tier):
    rep.rules.append('in the tree the gamma stage makes of every tree of bounded size, read from its root, every word occurs once, except the articles that stood first of two')
    if not need(prog, rep, 'gb.knowledge.stages.gamma', 'gb.knowledge.semantic_tree'):
        return
    src = TREE + 'from gb.knowledge.stages.gamma import GammaStage\n'
    for n, classes, step in ((1, 'VNAO', 1), (2, 'VNPAO', 1), (3, 'VNPAO', 1), (4, 'VNAO', 5 if tier == 'quick' else 1), (5, 'VPNA', 97 if tier == 'quick' else 7),
                             (6, 'VNA', 3001 if tier == 'quick' else 211)):
        for t, k in list(family(n, classes, step)) + (list(wide('VNP', 'AN')) + list(wide('VN', 'VN')) if n == 1 else []):
            nn = nodes_of(t)
            marks = (nn[k // 3 % len(nn)],) if nn and k % 3 == 0 else ()
            a = drive(prog, rep, src, '\n'.join(build(t, marks, 'all') + ['tree = GammaStage(tree).process()', 'return leaves(tree, tree.root_id)']), text(t, marks), unknown=free(t))
            verdict(a, rep, 'GammaStage.process', 'words of the tree', text(t, marks), counted(after_gamma(t)[1]), 'trees')


class Comp(list):
    """a node that is a compound"""


def marked(t):
    """preorder numbers of the compounds"""
    out, ctr = [], [0]

    def go(x):
        i = ctr[0]
        ctr[0] += 1
        if not isinstance(x, tuple):
            if isinstance(x, Comp):
                out.append(i)
            for y in x:
                go(y)
    go(t)
    return tuple(out)


def clauses(tier):
    """relations with their arguments, which may be relations themselves"""
    ctr = [0]

    def leaf(c):
        ctr[0] += 1
        return leaf_of(c, ctr[0], ctr[0])

    def head(h):
        if h == 'V':
            return leaf('V')
        kids = [leaf(c) for c in h.strip('+')]
        return Comp(kids) if h[0] == '+' else kids

    def arg(c):
        return leaf('N') if c == 'n' else Comp([leaf('N'), leaf('N')]) if c == 'c' else [leaf('N'), leaf('N'), leaf('P')]

    def clause(h, args, inner):
        return [head(h)] + [inner() if c == 'e' else arg(c) for c in args]
    heads = ['V', '+VV', 'VP', 'VPR', '+VVV', 'VVPR']
    inner = ['n', 'nn', 'nnnn', 'nncmn']
    k = 0
    for h1, h2 in itertools.product(heads, repeat=2):
        for outer in ('e', 'ne', 'en', 'nen', 'nnne', 'ennn'):
            for args in inner:
                k += 1
                if tier == 'quick' and k % 7 and not (outer == 'ne' and args in ('nncmn', 'nnnn') and h1[0] == '+'):
                    continue
                ctr[0] = 0
                yield clause(h1, outer, lambda: clause(h2, args, None))
    for h1, h2, h3 in itertools.product(heads[:4], repeat=3):
        for outer in ('ee', 'nee', 'ene'):
            k += 1
            if k % (17 if tier == 'quick' else 3):
                continue
            ctr[0] = 0
            hs = iter((h2, h3))
            yield clause(h1, outer, lambda: clause(next(hs), 'nn'[:1 + k % 2], None))
            ctr[0] = 0
            yield clause(h1, {'ee': 'e', 'nee': 'en', 'ene': 'ne'}[outer], lambda: clause(h2, 'en', lambda: clause(h3, 'nn', None)))
    for h in heads:
        ctr[0] = 0
        yield clause(h, 'nnnnnnnncm', None)


# ------------------------------------------------------------------ K07
def k07(prog, rep, tier):
    rep.rules.append('in the tree the delta stage makes of every tree of bounded size, read from its root, every word occurs exactly once')
    if not need(prog, rep, 'gb.knowledge.stages.delta', 'gb.knowledge.semantic_tree'):
        return
    src = TREE + 'from gb.knowledge.stages.delta import DeltaStage\n'
    for n, classes, step in ((1, 'VN', 1), (2, 'VNP', 1), (3, 'VNP', 1), (4, 'VN', 1), (5, 'VN', 11 if tier == 'quick' else 1), (6, 'VN', 1501 if tier == 'quick' else 101)):
        for t, k in list(family(n, classes, step)) + (list(wide('N', 'NN')) if n == 1 else []):
            nn = nodes_of(t)
            marks = (nn[k // 3 % len(nn)],) if nn and k % 3 == 0 else ()
            a = drive(prog, rep, src, '\n'.join(build(t, marks, 'all' if len(words(t)) < 5 else 'words') + ['tree = DeltaStage(tree).process()', 'return leaves(tree, tree.root_id)']), text(t, marks), unknown=free(t))
            verdict(a, rep, 'DeltaStage.process', 'words of the tree', text(t, marks), counted(words(t)), 'trees')
    for t in clauses(tier):
        marks = marked(t)
        a = drive(prog, rep, src, '\n'.join(build(t, marks) + ['tree = DeltaStage(tree).process()', 'return leaves(tree, tree.root_id)']), text(t, marks), unroll=400)
        verdict(a, rep, 'DeltaStage.process', 'words of the tree', text(t, marks), counted(words(t)), 'clauses')


# ------------------------------------------------------------------ K05
class Joined(str):
    """the root of the symbol of a compound"""


def mirror(t, marks, ctr=None):
    ctr = ctr or [0]
    i = ctr[0]
    ctr[0] += 1
    if isinstance(t, tuple):
        return t[0]
    if i in marks:
        ctr[0] += len(nodes_of(t)) + len(words(t)) - 1
        return Joined('_'.join(words(t)))
    return tuple(mirror(x, marks, ctr) for x in t)


# nodes of many children, of a single child, and of none
ODD = [(None,) * w + ((None, None),) for w in (3, 5, 7, 14)] + [((None,) * 12, None), (None, ((None,) * 3, (None,) * 9)), (None, (None,)), ((None,),), (((None, None),),), (None, ()), ((), None), (),
                                                                ((None, ()), None), (None, ((None,), None)), ((((None,),),), None), (None, (None, (None, (None, (None, (None, (None, None)))))))]


def empties(t):
    return not isinstance(t, tuple) and (not t or any(empties(x) for x in t))


def k05(prog, rep, tier):
    rep.rules.append('the beta stage gives every element of every tree of bounded size a namespace and moves nothing; the epsilon stage makes of every such tree the tuple of '
                     'the same shape, with one symbol for each leaf and each compound')
    if not need(prog, rep, 'gb.knowledge.stages.beta', 'gb.knowledge.stages.epsilon', 'gb.knowledge.semantic_tree'):
        return
    src = TREE + 'from gb.knowledge.stages.beta import BetaStage\nfrom gb.knowledge.stages.epsilon import EpsilonStage\n'
    deps = ['nsubj', 'det', 'pobj', 'compound', 'ROOT', 'dobj', 'prep']
    ents = ['', 'GPE', 'GPE', '', 'LOC']
    sizes = ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1 if tier == 'thorough' else 4), (6, 1 if tier == 'thorough' else 1000))
    k = 0
    for n, step in sizes:
        for j, sh in enumerate(list(plane(n)) + (ODD if n == 1 else [])):
            for var in range(3 if n < 5 else 1):
                k += 1
                if j % step:
                    continue
                leafs = [('w%d' % i, 'NOUN', 'l', deps[(k + i * (var + 1)) % len(deps)] if var else 'nsubj', ents[(k + i) % len(ents)] if var != 1 else 'GPE') for i in range(n + 40)]
                if var == 2 and sh in ODD:
                    # words that occur again
                    leafs = [('w%d' % (i % 2),) + l[1:] for i, l in enumerate(leafs)]
                t = dress(sh, leafs, [0])
                a = None if empties(t) else drive(prog, rep, src, '\n'.join(build(t, (), 'all' if len(words(t)) < 4 and not var else '') + ['tree = BetaStage(None, tree).process()', 'return [shape(tree, tree.root_id), everything(tree, tree.root_id)]']), text(t), unknown=free(t))

                def named(v):
                    def bare(e):
                        if len(e) == 2:
                            return None if e[1] else 'the leaf %s has no namespace' % e[0]
                        for x in e[2]:
                            w = bare(x)
                            if w:
                                return w
                        return None if e[1] else 'a node has no namespace'
                    want = mirror(t, ())
                    return 'the tree becomes %r' % (v[0],) if v[0] != want else bare(v[1])
                if a is not None:
                    verdict(a, rep, 'BetaStage.process', 'namespaces', text(t), named, 'trees with namespaces')
                nn = nodes_of(t)
                for marks in [()] if empties(t) else [()] + [(x,) for x in nn] + ([tuple(nn[-2:])] if len(nn) > 2 else []):
                    i = [0]
                    names = ['for x in [%s]:' % ', '.join('e%d' % x for x in range(len(nn) + len(words(t)))), '    x.namespace = "q" + (x.token.word if x.is_leaf() else "")']
                    names += ['ns = {}', 'for x in [%s]:' % ', '.join('e%d' % x for x in range(len(nn) + len(words(t)))), '    if x.is_leaf():', '        ns[x.token.word] = x.namespace']
                    a = drive(prog, rep, src, '\n'.join(build(t, marks) + names + ['return [EpsilonStage(None, tree).process(), [[w, ns[w]] for w in ns]]']), text(t, marks), unroll=400)

                    def same(v):
                        ns = dict(v[1])

                        def cmp(got, want):
                            if isinstance(want, tuple):
                                if not isinstance(got, tuple) or len(got) != len(want):
                                    return '%r instead of %d elements' % (got, len(want))
                                for g, w in zip(got, want):
                                    r = cmp(g, w)
                                    if r:
                                        return r
                                return None
                            if not isinstance(got, str):
                                return '%r instead of one symbol' % (got,)
                            root, _s, rest = got.partition('/')
                            if root != want:
                                return 'the symbol %s instead of one for %s' % (got, want)
                            if not isinstance(want, Joined) and rest != ns[want]:
                                return 'the symbol %s instead of %s/%s' % (got, want, ns[want])
                            return None
                        return cmp(v[0], mirror(t, marks))
                    verdict(a, rep, 'EpsilonStage.process', 'the hyperedge', text(t, marks), same, 'hyperedges')
