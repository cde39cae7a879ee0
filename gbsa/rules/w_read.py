"""W01, W02: the WordNet reader over a stand-in corpus, and the symbols made from the texts of words and lemmas."""
import itertools

from .k_tree import *
from .y_text import setup, renumber
from .. import chars
from ..chars import sent

WN = 'nltk.corpus.wordnet'

CORPUS = '''
import gb.readers.wordnet as reader
from gb.hypergraph.hypergraph import HyperGraph


class Lemma(object):
    def __init__(self, syn, nm):
        self.syn = syn
        self.nm = nm

    def name(self):
        return self.nm

    def synset(self):
        return Synset(self.syn)

    def rel(self, r):
        return [Lemma(s, n) for s, n in LEMMAS.get((self.syn, self.nm), {}).get(r, [])]

    def antonyms(self):
        return self.rel('antonym')

    def pertainyms(self):
        return self.rel('pertainym')

    def derivationally_related_forms(self):
        return self.rel('derivationally_related_form')

    def count(self):
        return COUNTS.get(self.nm, 0)

    def key(self):
        return self.nm

    def lang(self):
        return 'eng'


class Synset(object):
    def __init__(self, nm):
        self.nm = nm

    def name(self):
        return self.nm

    def pos(self):
        return SYNSETS[self.nm]['pos']

    def lemmas(self, lang='eng'):
        return [Lemma(self.nm, n) for n in SYNSETS[self.nm]['lemmas']]

    def lemma_names(self, lang='eng'):
        return list(SYNSETS[self.nm]['lemmas'])

    def rel(self, r):
        return [Synset(n) for n in SYNSETS[self.nm].get(r, [])]

    def definition(self):
        return 'a definition'
%s

class Corpus(object):
    @staticmethod
    def all_synsets(pos=None, lang='eng'):
        for n in ORDER:
            p = SYNSETS[n]['pos']
            if pos is None or pos == p or (pos == 'a' and p == 's'):
                yield Synset(n)

    @staticmethod
    def synset(name):
        return Synset(name)

    @staticmethod
    def synsets(name, pos=None):
        return [Synset(n) for n in ORDER if name in SYNSETS[n]['lemmas']]


class Store(object):
    def __init__(self):
        self.edges = {}

    def add(self, edges, timestamp=-1):
        for e in edges:
            self.edges[e] = True
        return edges

    def exists(self, vertex):
        return vertex in self.edges

    def batch_exec(self, funs):
        for f in funs:
            f(self)


def import_all():
    hg = HyperGraph({'backend': 'null'})
    hg.backend = Store()
    reader.read(hg)
    return list(hg.backend.edges)


def import_again(earlier):
    global SYNSETS, ORDER
    all_synsets, order = SYNSETS, ORDER
    SYNSETS = dict(all_synsets)
    for n in all_synsets:
        SYNSETS[n] = earlier.get(n, all_synsets[n])
    ORDER = list(earlier)
    import_all()
    SYNSETS, ORDER = all_synsets, order
    return import_all()
'''

OF_SYNSET = ['hypernym', 'instance_hypernym', 'member_meronym', 'attribute', 'entailment', 'cause', 'also_see', 'verb_group', 'similar_to']
OTHER = ['hyponym', 'instance_hyponym', 'member_holonym', 'part_meronym', 'part_holonym', 'substance_meronym', 'substance_holonym', 'topic_domain', 'region_domain', 'usage_domain',
         'in_topic_domain', 'in_region_domain', 'in_usage_domain', 'root_hypernym']
OF_LEMMA = ['antonym', 'pertainym', 'derivationally_related_form']
METHOD = {'also_see': 'also_sees', 'similar_to': 'similar_tos', 'entailment': 'entailments', 'cause': 'causes', 'verb_group': 'verb_groups', 'attribute': 'attributes'}
POS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}
SOURCE = 'wordnet/gb'

METHODS = ''.join('\n    def %s(self):\n        return self.rel(%r)\n' % (METHOD.get(r, r + 's'), r) for r in OF_SYNSET + OTHER)


def corpus(synsets, lemmas):
    counts = {}
    for i, l in enumerate(sorted({l for d in synsets.values() for l in d['lemmas']})):
        counts[l] = (0, 7, 2)[i % 3]
    return CORPUS % METHODS + '\nSYNSETS = %r\nLEMMAS = %r\nORDER = %r\nCOUNTS = %r\n' % (synsets, lemmas, list(synsets), counts)


def symbol(name, syn):
    return '%s/wn.%s' % (name.replace('/', '_'), syn.replace('/', '_'))


def recorded(synsets, lemmas):
    """the edges the import has to record"""
    out = set()
    for n, d in synsets.items():
        top = symbol(d['lemmas'][0], n)
        out.add(('pos/gb', top, POS[d['pos']]))
        for l in d['lemmas'][1:]:
            out.add(('synonym/gb', top, symbol(l, n)))
        for r in OF_SYNSET:
            for m in d.get(r, []):
                out.add((r + '/gb', top, symbol(synsets[m]['lemmas'][0], m)))
        for l in d['lemmas']:
            for r in OF_LEMMA:
                for s, m in lemmas.get((n, l), {}).get(r, []):
                    out.add((r + '/gb', symbol(l, n), symbol(m, s)))
    return out


def corpora(tier):
    base = {'dog.n.01': {'pos': 'n', 'lemmas': ['dog', 'hound', 'cur']}, 'cat.n.01': {'pos': 'n', 'lemmas': ['cat', 'puss']}, 'ox.n.01': {'pos': 'n', 'lemmas': ['ox']}}

    def fresh():
        return {k: {a: list(b) if isinstance(b, list) else b for a, b in v.items()} for k, v in base.items()}
    for p in POS:
        yield 'one word of part of speech %s' % p, {'ox.n.01': {'pos': p, 'lemmas': ['ox']}}, {}
    for p in POS:
        s = fresh()
        for k in s:
            s[k]['pos'] = p
        yield 'part of speech %s' % p, s, {}
    for r in OF_SYNSET:
        s = fresh()
        s['dog.n.01'][r] = ['cat.n.01']
        yield 'one %s' % r, s, {}
        s = fresh()
        s['dog.n.01'][r] = ['cat.n.01', 'ox.n.01']
        s['ox.n.01'][r] = ['dog.n.01']
        yield 'several of %s' % r, s, {}
        s = fresh()
        s['ox.n.01'][r] = ['ox.n.01']
        yield '%s of itself' % r, s, {}
    for r in OF_LEMMA:
        yield 'one %s' % r, fresh(), {('dog.n.01', 'dog'): {r: [('cat.n.01', 'cat')]}}
        yield '%s of a later lemma' % r, fresh(), {('dog.n.01', 'cur'): {r: [('cat.n.01', 'puss'), ('ox.n.01', 'ox')]}, ('ox.n.01', 'ox'): {r: [('dog.n.01', 'hound')]}}
    # everything at once, each relation with its own targets
    s = fresh()
    names = ['t%d.v.01' % i for i in range(len(OF_SYNSET) + len(OTHER))]
    for i, n in enumerate(names):
        s[n] = {'pos': 'nvasr'[i % 5], 'lemmas': ['t%d' % i, 'u%d' % i]}
    for i, r in enumerate(OF_SYNSET + OTHER):
        s['dog.n.01'][r] = [names[i]]
    yield 'all relations', s, {('dog.n.01', l): {r: [(names[3 * i + j], 'u%d' % (3 * i + j))] for j, r in enumerate(OF_LEMMA)} for i, l in enumerate(['dog', 'hound', 'cur'])}
    s = {}
    yield 'nothing', s, {}
    # many lemmas, many targets of each relation, many synsets
    s = {'top.n.01': {'pos': 'n', 'lemmas': ['l%d' % i for i in range(30)]}, 'oak.v.02': {'pos': 'v', 'lemmas': ['oak']}}
    targets = ['t%d.n.01' % i for i in range(25)]
    for i, n in enumerate(targets):
        s[n] = {'pos': 'nvasr'[i % 5], 'lemmas': ['t%d' % i]}
    for r in OF_SYNSET:
        s['top.n.01'][r] = list(targets)
    s['oak.v.02']['hypernym'] = ['top.n.01']
    yield 'long lists', s, {('top.n.01', l): {r: [(n, s[n]['lemmas'][0]) for n in targets[:20]] for r in OF_LEMMA} for l in ('l0', 'l7', 'l29')}
    s = {'s%d.n.01' % i: {'pos': 'nvasr'[i % 5], 'lemmas': ['s%d' % i]} for i in range(1030)}
    s['s1029.n.01'].update(lemmas=['s1029', 'z'], similar_to=['s0.n.01', 's1010.n.01'])
    yield 'many synsets', s, {}
    # names of all kinds; synsets not called as their first lemma, lemmas of the same name in many synsets, numbers of senses
    names = ['Dog', 'U.S.A.', "o'clock", 'hot-dog', '9', 'hot_dog', '24/7', 'and/or', '.22', 'x-ray', "'hood", 'A', 'a', 'Ångström', 'e.g.', 'c++', '1000', 'Mr.']
    s = {}
    for i, n in enumerate(names):
        s['%s.%s.%02d' % (n.lower(), 'nvasr'[i % 5], 7 * i + 1)] = {'pos': 'nvasr'[i % 5], 'lemmas': [n, names[i - 1]]}
    s['stone.n.12'] = {'pos': 'n', 'lemmas': ['rock', 'stone', 'Stone']}
    s['stone.n.13'] = {'pos': 'n', 'lemmas': ['Stone', 'rock'], 'hypernym': ['stone.n.12'], 'instance_hypernym': ['dog.n.01']}
    s['STONE.s.01'] = {'pos': 's', 'lemmas': ['stone'], 'similar_to': ['stone.n.13'], 'also_see': list(s)}
    yield 'names of all kinds', s, {('stone.n.12', 'Stone'): {'antonym': [('stone.n.13', 'Stone')], 'derivationally_related_form': [('STONE.s.01', 'stone')]},
                                    ('stone.n.13', 'rock'): {'pertainym': [('stone.n.13', 'rock')], 'antonym': [('stone.n.12', 'rock')]}}
    # the two directions between the same synsets
    s = fresh()
    s['dog.n.01']['hypernym'] = ['cat.n.01']
    s['cat.n.01']['similar_to'] = ['dog.n.01']
    s['cat.n.01']['cause'] = ['dog.n.01']
    yield 'both directions', s, {('dog.n.01', 'dog'): {'antonym': [('cat.n.01', 'cat')]}, ('cat.n.01', 'cat'): {'antonym': [('dog.n.01', 'dog')]}}


def w01(prog, rep, tier):
    rep.rules.append('reading a stand-in corpus records exactly the edges of the parts of speech, synonyms and twelve relations, each as a belief of the WordNet source, and '
                     'leaves nothing in the buffer')
    if not need(prog, rep, 'gb.readers.wordnet', 'gb.hypergraph.hypergraph'):
        return
    known = {r + '/gb' for r in OF_SYNSET + OF_LEMMA + ['pos', 'synonym']}
    for name, synsets, lemmas in corpora(tier):
        a = drive(prog, rep, corpus(synsets, lemmas), 'return import_all()', name, extvals={WN: mk('cls', 'driver:Corpus')}, unroll=4000, max_steps=4000000)
        want = recorded(synsets, lemmas)

        def good(v):
            got = set(v)
            beliefs = {e[1]: e[2] for e in got if len(e) == 3 and isinstance(e[1], tuple)}
            for e in sorted(want):
                if e not in got:
                    return 'the edge (%s) is not recorded' % ' '.join(e)
                s = [x for x in got if len(x) == 3 and x[1] == e]
                if not s:
                    return 'the edge (%s) is not a belief of any source' % ' '.join(e)
                if not any(x[2] == SOURCE for x in s):
                    return 'the edge (%s) is a belief of %s' % (' '.join(e), s[0][2])
                if any(x[2] != SOURCE for x in s):
                    return 'the edge (%s) is also a belief of %s' % (' '.join(e), [x[2] for x in s if x[2] != SOURCE][0])
            for e in sorted(got, key=repr):
                if e[0] in known and e not in want:
                    return 'the edge (%s) is recorded' % ' '.join(map(str, e))
            return None
        verdict(a, rep, 'wordnet.read', 'relations of the corpus', name, good, 'corpora')
        if name in ('several of hypernym', 'antonym of a later lemma', 'all relations'):
            # after an earlier import, of another corpus or the same one, into another store
            for label, earlier in (('the same corpus', synsets), ('another corpus', {n: {'pos': 'v', 'lemmas': list(reversed(d['lemmas']))} for n, d in synsets.items()})):
                if lemmas and earlier is not synsets:
                    continue
                a = drive(prog, rep, corpus(synsets, lemmas), 'return import_again(%r)' % (earlier,), name, extvals={WN: mk('cls', 'driver:Corpus')}, unroll=4000, max_steps=4000000)
                verdict(a, rep, 'wordnet.read', 'relations of the corpus', '%s, imported after %s' % (name, label), good, 'corpora')


# ------------------------------------------------------------------ W02
def w02(prog, rep, tier):
    rep.rules.append('over character classes the symbol of every word of bounded length, and of every compound, consists of a root without reserved characters and the given namespace; '
                     'the symbol of a lemma of exactly a root and a namespace')
    lits = chars.refine([prog.modules[m].src for m in ('gb.hypergraph.symbol', 'gb.knowledge.stages.epsilon', 'gb.readers.wordnet') if m in prog.modules])
    alpha = [sent('letter'), sent('upper'), sent('digit'), ' ', '\t', '\n', '\x0b', '\x85', '\xa0', sent('ublank'), '/', '(', ')', '_', '~', '.', '-', sent('punct'), sent('wide'),
             '"', "'"]
    alpha += sorted(c for c in lits if c not in alpha)
    core = [sent('letter'), ' ', sent('ublank'), '/', '(', ')']
    plan = [(alpha, 1), (core, 2), (['/', '(', sent('upper')], 3)]
    if tier == 'thorough':
        plan = [(alpha, 1), (alpha, 2), (core, 3), (['/', '(', ')', sent('upper')], 4)]
    texts = []
    for al, n in plan:
        for t in itertools.product(al, repeat=n):
            t = renumber(''.join(t))
            if t not in texts:
                texts.append(t)
    if need(prog, rep, 'gb.knowledge.stages.epsilon', 'gb.knowledge.semantic_tree'):
        src = TREE + 'from gb.knowledge.stages.epsilon import EpsilonStage\n'
        for t in texts:
            if not any(c.isalnum() or chars.has_sent(c) for c in t) and t.strip() == '':
                continue
            body = ['tree = Tree()', 'a = tree.create_leaf(tok(%r))' % t, 'a.namespace = "q7"', 'tree.root_id = a.id', 'return EpsilonStage(None, tree).process()']
            a = drive(prog, rep, src, '\n'.join(body), 'the word %r' % chars.show(t))
            verdict(a, rep, 'EpsilonStage.process', 'the symbol of a word', 'the word %r' % chars.show(t), lambda v: formed(v, 'q7', '/() \n\t'), 'words')
            body = ['tree = Tree()', 'a = tree.create_leaf(tok(%r))' % t, 'b = tree.create_leaf(tok("x" + %r))' % t, 'n = tree.create_node([b.id, a.id])', 'n.compound = True',
                    'tree.root_id = n.id', 'return EpsilonStage(None, tree).process()']
            a = drive(prog, rep, src, '\n'.join(body), 'a compound with %r' % chars.show(t))
            verdict(a, rep, 'EpsilonStage.process', 'the symbol of a compound', 'a compound with %r' % chars.show(t), lambda v: formed(v, None, '/() \n\t'), 'words')
    if need(prog, rep, 'gb.readers.wordnet'):
        some = [t for t in texts if len(t) <= 2 and not any(c.isspace() for c in t)]
        for t in some + ['his/her', '/', '//', 'a/b/c', 'and/or/', '/x']:
            for where in ('name', 'synset'):
                lem, syn = (t, 'a.n.01') if where == 'name' else ('w', t + '.n.01')
                synsets = {syn: {'pos': 'n', 'lemmas': [lem, 'v']}}
                a = drive(prog, rep, corpus(synsets, {}), 'return import_all()', 'a lemma with %r' % chars.show(t), extvals={WN: mk('cls', 'driver:Corpus')}, unroll=400)

                def lemma(v):
                    tops = [e[1] for e in v if e[0] == 'pos/gb'] + [x for e in v if e[0] == 'synonym/gb' for x in e[1:]]
                    if not tops:
                        return 'nothing is recorded'
                    for s in tops:
                        w = formed(s, 'wn.' + syn.replace('/', '_'), '/', strict=False)
                        if w:
                            return w
                verdict(a, rep, 'wordnet.read', 'the symbol of a lemma', '%s %r' % ('the lemma' if where == 'name' else 'the synset', chars.show(lem if where == 'name' else syn)), lemma, 'lemmas')


def formed(v, ns, reserved, strict=True):
    """what is wrong with the symbol, for every choice of the characters known by class"""
    if not isinstance(v, str):
        return 'it is no symbol: %r' % (v,)
    for j in range(chars.ROUNDS):
        s = chars.Choice(j).put(v)
        ps = s.split('/')
        if len(ps) != 2:
            return 'the symbol %r has %d parts' % (chars.show(v), len(ps))
        if not ps[0]:
            return 'the symbol %r has no root' % chars.show(v)
        if any(c in reserved or (strict and c.isspace()) for c in ps[0]):
            return 'a reserved character is left in %r' % chars.show(v)
        if ns is not None and ps[1] != chars.Choice(j).put(ns):
            return 'the namespace of %r is not %r' % (chars.show(v), chars.show(ns))
    return None
