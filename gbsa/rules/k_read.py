"""K03, K06: the extractor and the parser, with stand-ins for the stages and for the language model."""
import itertools

from .k_tree import *

STAGES = ['alpha', 'beta', 'gamma', 'delta', 'epsilon']

SPACY = '''

class Word(object):
    def __init__(self, i, orth, lemma, pos, dep, ent):
        self.i = i
        self.orth_ = orth
        self.text = orth
        self.lemma_ = lemma
        self.shape_ = 'shape' + orth
        self.prob = 0 - i
        self.pos_ = pos
        self.dep_ = dep
        self.ent_type_ = ent
        self.lefts = []
        self.rights = []
        self.head = self


class Span(object):
    def __init__(self, start, end):
        self.start = start
        self.end = end


class Doc(object):
    def __init__(self):
        self.words = []
        self.sents = []

    def __getitem__(self, i):
        return self.words[i]


class Model(object):
    doc = None
    made = []

    def __init__(self, *args, **kwargs):
        Model.made.append(1)

    def __call__(self, text):
        return DOCS[text]()


def load(*args, **kwargs):
    return Model()
'''


# ------------------------------------------------------------------ K03
def stage_role(fi):
    """what a stage makes is a term that holds what it was given"""
    if not fi.mod.name.startswith('gb.knowledge.stages') or '.' not in fi.qual or fi.qual.split('.')[1] not in ('process', 'process_sentence'):
        return None

    def made(eng, s, fr, n, args):
        me = args[0]
        rec = s.store.get(me) if me.op == 'ref' else None
        if rec is None or rec.op != 'oinst':
            return None
        given = list(args[1:])
        for k, v in s.store.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] is me and isinstance(v, T) and (v.op in ('mcall', 'call') and 'made by' in str(v.a[0]) or v.op == 'param'):
                given.append(v)
        return mk('call', 'made by ' + rec.a[0].split(':')[1], tuple(g for g in given if g.op in ('call', 'param') and g is not param('hg')))
    return made


def pipeline(names, sentence):
    t = sentence
    for n in names:
        t = mk('call', 'made by %sStage' % n.capitalize(), (t,))
    return t


def story(t):
    out = []
    while t.op == 'call' and str(t.a[0]).startswith('made by') and len(t.a[1]) == 1:
        out.append(t.a[0][8:-5].lower())
        t = t.a[1][0]
    return '%s of %s' % (', '.join(reversed(out)), t.a[0] if t.op == 'param' else show(t)[:60])


def k03(prog, rep, tier):
    rep.rules.append('what the extractor returns for an unknown sentence is the composition of the configured stages, in order, each on what the one before made of that '
                     'sentence, whatever was read before; one output per stage; an unknown stage name is an error; small sentences read one after the other with the real stages '
                     'give trees of their own words')
    if not need(prog, rep, 'gb.knowledge.extractor', 'gb.nlp.parser', 'gb.nlp.sentence'):
        return
    src = TREE + 'from gb.knowledge.extractor import Extractor\n'
    lists = [None]
    for n in (1, 2, 3):
        lists += [('alpha',) + p for p in itertools.product(STAGES[1:], repeat=n - 1)]
    lists += [tuple(STAGES), ('alpha', 'gamma', 'beta', 'epsilon'), ('alpha', 'delta', 'gamma', 'beta'), ('alpha', 'gamma', 'gamma', 'gamma', 'beta', 'beta', 'epsilon')]
    if tier == 'thorough':
        lists += [('alpha',) + p for p in itertools.product(STAGES[1:], repeat=3)]
    for names in lists:
        real = names or STAGES
        for debug in (False, True):
            for twice in (False, True):
                how = '%s%s%s' % ('stages ' + ', '.join(names) if names else 'the default stages', ' with debugging' if debug else '', ', second sentence' if twice else '')
                body = 'ex = Extractor(hg%s)\nex.debug = %r\n' % (', stages=%r' % (list(names) if twice else names,) if names else '', debug)
                body += 'r0 = ex.read_sentence(first)\n' if twice else ''
                body += 'r = ex.read_sentence(sentence)\nreturn [r, ex.outputs%s]' % (', r0' if twice else '')
                text = src + '\n\ndef drive(hg, first, sentence):\n' + '\n'.join('    ' + l for l in body.split('\n')) + '\n'
                a = An(prog, text, 'drive', label=how, opaque=stage_role, objects=(param('sentence'), param('first')))
                rep.functions |= a.eng.analysed
                if a.imprecise:
                    rep.undec('%s: %s' % (how, a.imprecise))
                    continue
                for x in a.exits():
                    if x.data['kind'] == 'raise':
                        rep.bad('the extractor fails', 'Extractor.read_sentence', '%s: raises %s' % (how, show(x.data['value'])[:80]))
                        continue
                    v = x.data['value']
                    if v.op != 'tuple' or not all(g.op == 'one' for g in v.a[0]):
                        rep.undec('%s: result %s' % (how, show(v)[:80]))
                        continue
                    vs = [g.a[0] for g in v.a[0]]
                    want = pipeline(real, param('sentence'))
                    if vs[0] is not want:
                        if not str(vs[0].a[0]).startswith('made by') and vs[0].op != 'param':
                            rep.undec('%s: result %s' % (how, show(vs[0])[:80]))
                        else:
                            rep.bad('order of the stages', 'Extractor.read_sentence', '%s: the result is %s' % (how, story(vs[0])))
                        continue
                    if twice and vs[2] is not pipeline(real, param('first')):
                        rep.bad('order of the stages', 'Extractor.read_sentence', '%s: the result of the first sentence is %s' % (how, story(vs[2])))
                        continue
                    outs = vs[1]
                    if outs.op != 'tuple' or not all(g.op == 'one' for g in outs.a[0]):
                        rep.undec('%s: outputs %s' % (how, show(outs)[:80]))
                        continue
                    if len(outs.a[0]) != len(real):
                        rep.bad('outputs of the stages', 'Extractor.read_sentence', '%s: %d outputs are recorded' % (how, len(outs.a[0])))
                        continue
                    wrong = [i for i, g in enumerate(outs.a[0]) if not holds(g.a[0], pipeline(real[:i + 1], param('sentence')), pipeline(real[:i + 2], param('sentence')))]
                    if wrong:
                        rep.bad('outputs of the stages', 'Extractor.read_sentence', '%s: output %d is %s' % (how, wrong[0] + 1, show(outs.a[0][wrong[0]].a[0])[:80]))
                    else:
                        rep.ok('runs of the stages')
    for names in (('zeta',), ('alpha', 'zeta'), ('alpha', 'Beta'), ('alpha', ''), ('alpha', 'eps'), ('alpha', 'epsilonn'), ('alpha', 'beta', 'gamma2'), ('alpha', None), ('alpha', 'beta ')):
        text = src + '\n\ndef drive(hg, sentence):\n    return Extractor(hg, stages=%r).read_sentence(sentence)\n' % (names,)
        a = An(prog, text, 'drive', label='stages %r' % (names,), opaque=stage_role, objects=(param('sentence'),))
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        for x in a.exits():
            if x.data['kind'] == 'raise':
                rep.ok('unknown stages')
            else:
                rep.bad('an unknown stage is accepted', 'Extractor.create_stage', 'stages %r: the result is %s' % (names, story(x.data['value'])))
    # real stages on sentences read one after the other
    trees = [('w0', 'VERB', 'ROOT', (('w1', 'NOUN', 'nsubj', (), ()),), ()), ('v0', 'VERB', 'ROOT', (), (('v1', 'NOUN', 'dobj', (('v2', 'DET', 'det', (), ()),), ()),)),
             ('u0', 'NOUN', 'ROOT', (), ())]
    for order in itertools.permutations(range(3)):
        body = ['ex = Extractor(None, stages=("alpha", "beta"))', 'out = []']
        for k, i in enumerate(order):
            body.append('r%d = ex.read_sentence(Sentence(%s.to_list()))' % (k, code(trees[i])))
        body += ['return [leaves(r, r.root_id) for r in [r0, r1, r2]]']
        a = drive(prog, rep, src, '\n'.join(body), 'three sentences')

        def own(v):
            for g, i in zip(v, order):
                if sorted(g) != sorted(placed(trees[i])):
                    return 'the tree of %s has the words %s' % (told(trees[i]), ' '.join(g))
        verdict(a, rep, 'Extractor.read_sentence', 'a tree of its own for every sentence', 'sentences %s' % ', '.join(told(trees[i]) for i in order), own, 'sentences in a row')
    # a sentence on which a stage fails
    for bad in (['nosuch'], ['alpha', 'nosuch'], ['alpha', 'beta', 'nosuch']):
        for then in (['alpha'], ['alpha', 'beta']):
            body = ['ex = Extractor(None, stages=%r)' % bad, 'try:', '    ex.read_sentence(Sentence(%s.to_list()))' % code(trees[0]), 'except RuntimeError:', '    pass',
                    'ex.stages = %r' % then, 'r = ex.read_sentence(Sentence(%s.to_list()))' % code(trees[1]), 'return [leaves(r, r.root_id), len(ex.outputs)]']
            a = drive(prog, rep, src, '\n'.join(body), 'a sentence after one that failed')

            def fresh(v):
                if sorted(v[0]) != sorted(placed(trees[1])):
                    return 'the tree has the words %s' % ' '.join(v[0])
                return None if v[1] == len(then) else '%d outputs are recorded for %d stages' % (v[1], len(then))
            verdict(a, rep, 'Extractor.read_sentence', 'fresh state for every sentence', 'stages %s after a failure in %s' % (', '.join(then), ', '.join(bad)), fresh, 'sentences after a failure')
    # whole texts
    trees += [ODD[0], ODD[3], ODD[5]]
    for ts in ((), (0,), (0, 1), (2, 0, 1), (1, 1), (3,), (0, 3, 1), (4, 5, 4), (2,) * 3, tuple(range(3)) * 5):
        body = ['ex = Extractor(None, stages=("alpha",))', 'rs = ex.read_text("t")', 'first = [leaves(r, r.root_id) for r in rs]', 'more = ex.read_text("t")', 'last = ex.read_text("u")',
                'return [first, [leaves(r, r.root_id) for r in more], [leaves(r, r.root_id) for r in rs], [leaves(r, r.root_id) for r in last]]']
        a = drive(prog, rep, src + SPACY + docs({'t': [trees[i] for i in ts], 'u': [rename(trees[2], 'z'), rename(trees[0], 'z')]}), '\n'.join(body), 'a text of %d sentences' % len(ts), unroll=2000, max_steps=8000000, extvals={'spacy.load': mk('cls', 'driver:Model')})

        def each(v):
            want = [sorted(placed(trees[i])) for i in ts]
            for what, g in zip(('', 'read again: ', 'the first results after reading again: '), v):
                if len(g) != len(want):
                    return '%s%d results for %d sentences' % (what, len(g), len(want))
                if [sorted(x) for x in g] != want:
                    return '%sthe results have the words %r' % (what, [list(x) for x in g])
            if [sorted(x) for x in v[3]] != [['zu0'], ['zw0', 'zw1']]:
                return 'another text gives the words %r' % ([list(x) for x in v[3]],)
        verdict(a, rep, 'Extractor.read_text', 'one result for every sentence', 'a text of %d sentences' % len(ts), each, 'texts')


def holds(t, want, more):
    """the output is about what this stage made, not about what a later one did"""
    found = []

    def go(x):
        if isinstance(x, T):
            if x is want:
                found.append(x)
                return
            if x is more and more is not want:
                found.append(None)
                return
            for y in x.a:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(t)
    return bool(found) and all(f is want for f in found)


def docs(texts):
    """stand-in documents: text -> sentences, each a dependency tree"""
    src = ''
    for name, trees in texts.items():
        src += '\n\ndef doc_%s():\n    d = Doc()\n' % name
        i = 0
        for t in trees:
            start = i
            nums = {}
            lines = []

            def go(x, root):
                nonlocal i
                ls = [go(y, False) for y in x[3]]
                me = i
                i += 1
                lines.append((me, x))
                rs = [go(y, False) for y in x[4]]
                nums[me] = (ls, rs)
                return me
            go(t, True)
            for me, x in sorted(lines, key=lambda p: p[0]):
                src += '    d.words.append(Word(%d, %r, %r, %r, %r, %r))\n' % (me, spelled(x[0]), 'lemma' + x[0], x[1], x[2], 'ent' + x[0])
            for me, (ls, rs) in nums.items():
                src += '    d.words[%d].lefts = [%s]\n    d.words[%d].rights = [%s]\n' % (me, ', '.join('d.words[%d]' % k for k in ls), me, ', '.join('d.words[%d]' % k for k in rs))
                for k in ls + rs:
                    src += '    d.words[%d].head = d.words[%d]\n' % (k, me)
            src += '    d.sents.append(Span(%d, %d))\n' % (start, i)
        src += '    return d\n'
    return src + '\n\nDOCS = {%s}\n' % ', '.join('%r: doc_%s' % (n, n) for n in texts)


def spelled(w):
    return w


# ------------------------------------------------------------------ K06
def in_order(t):
    return [w for x in t[3] for w in in_order(x)] + [t[0]] + [w for x in t[4] for w in in_order(x)]


def wordy(t, skip):
    return [w for x in t[3] for w in wordy(x, skip)] + ([t[0]] if t[0] not in skip and t[1] not in ('PUNCT', 'SPACE') else []) + [w for x in t[4] for w in wordy(x, skip)]


def heads(t, head=None):
    out = [(t[0], head)]
    for x in t[3] + t[4]:
        out += heads(x, t[0])
    return out


def k06(prog, rep, tier):
    rep.rules.append('for every token tree of bounded size the list of tokens is left children, token, right children, each once; words leave out exactly separators, punctuation and spaces; '
                     'the tokens the parser makes of a stand-in document mirror its words and links, one token object per word')
    if not need(prog, rep, 'gb.nlp.nlp_token'):
        return
    n = 5 if tier == 'quick' else 6
    poss = ['NOUN', 'PUNCT', 'VERB', 'SPACE', 'NOUN', 'X', 'PUNCT']
    k = 0
    for size_ in range(1, n + 1):
        for j, sh in enumerate(shapes(size_)):
            if size_ == n and j % (5 if tier == 'quick' else 3):
                continue
            k += 1
            t = label(sh, ['ROOT'] + ['nsubj', 'punct', 'det', 'dobj', ''][:size_ - 1], [poss[(k + i) % len(poss)] for i in range(size_)], [0])
            skip = 'w%d' % (k % size_)
            if k % 3:
                skip = ''
            a = drive(prog, rep, TREE, 'r = %s\nall = r.to_list()\nfor t in all:\n    t.separator = t.word == %r\n'
                      'return [[t.word for t in all], [t.word for t in r.to_word_token_list()], r.chunk_str(), [[t.word, t.is_word()] for t in all], all[%d] is r]' % (
                          code(t), skip, len(in_order(t)) - 1 - len([w for x in t[4] for w in in_order(x)])), told(t))

            def order(v):
                want, wd = in_order(t), wordy(t, (skip,))
                if list(v[0]) != want:
                    return 'the list of tokens is %s' % ' '.join(v[0])
                if list(v[1]) != wd:
                    return 'the words are %s' % ' '.join(v[1])
                if v[2] != ' '.join(wd):
                    return 'the chunk is %r' % (v[2],)
                for w, f in v[3]:
                    if f != (w in wd):
                        return '%s is %s word' % (w, 'a' if f else 'no')
                if v[4] is not True:
                    return 'the token itself is not the one in its list'
            verdict(a, rep, 'Token.to_list', 'tokens in order', told(t) + (', %s a separator' % skip if skip else ''), order, 'token trees')
    odd_tokens(prog, rep)
    if not need(prog, rep, 'gb.nlp.parser'):
        return
    odd_documents(prog, rep)
    src = 'from gb.nlp.parser import Parser\n' + SPACY
    k = 0
    groups = []
    for size_ in range(1, 5):
        for j, sh in enumerate(shapes(size_)):
            if size_ == 4 and j % 3 and tier == 'quick':
                continue
            k += 1
            groups.append(label(sh, ['ROOT'] + ['nsubj', 'punct', 'det'][:size_ - 1], [poss[(k + i) % len(poss)] for i in range(size_)], [0]))
    for i in range(0, len(groups), 2):
        ts = [rename(t, 'ab'[j]) for j, t in enumerate(groups[i:i + 2])]
        body = ['p = Parser()', 'sents = p.parse_text("t")', 'out = []', 'for s in sents:', '    for t in s:',
                '        out.append([t.word, t.lemma, t.pos, t.dep, t.entity_type, t.shape, t.logprob, None if t.parent is None else t.parent.word, '
                '[c.word for c in t.left_children], [c.word for c in t.right_children], [c.parent is t for c in t.left_children + t.right_children], '
                '[len([u for v in sents for u in v if u is c]) for c in t.left_children + t.right_children]])',
                'again = p.parse_text("u")',
                'return [out, [len(s) for s in sents], [[t.word for t in r.to_list()] for s in sents for r in s if r.dep == "ROOT"], '
                '[[[t.word, t.pos, [c.word for c in t.left_children]] for t in s] for s in again]]']
        us = [rename(t, 'cd'[j]) for j, t in enumerate(groups[i:i + 2])][::-1]
        a = drive(prog, rep, src + docs({'t': ts, 'u': us}), '\n'.join(body), 'parsing %s' % ' / '.join(told(t) for t in ts), extvals={'spacy.load': mk('cls', 'driver:Model')})

        def mirrored(v):
            order = [w for t in ts for w in in_order(t)]
            if [o[0] for o in v[0]] != order or list(v[1]) != [len(in_order(t)) for t in ts]:
                return 'the sentences are %r' % ([o[0] for o in v[0]],)
            hd = dict(p for t in ts for p in heads(t))
            info = {}

            def go(x):
                info[x[0]] = x
                for y in x[3] + x[4]:
                    go(y)
            for t in ts:
                go(t)
            for i, o in enumerate(v[0]):
                x = info[o[0]]
                want = [x[0], 'lemma' + x[0], x[1], x[2], 'ent' + x[0], 'shape' + x[0], -i, hd[x[0]], tuple(y[0] for y in x[3]), tuple(y[0] for y in x[4])]
                for nm, g, w in zip(('word', 'lemma', 'part of speech', 'dependency', 'entity type', 'shape', 'probability', 'parent', 'left children', 'right children'), o, want):
                    if g != w:
                        return 'the %s of %s is %r' % (nm, x[0], g)
                if not all(o[10]):
                    return 'a child of %s has another parent' % x[0]
                if any(c != 1 for c in o[11]):
                    return 'a child of %s is not the token of the sentence' % x[0]
            if [list(x) for x in v[2]] != [in_order(t) for t in ts]:
                return 'the tokens below the root are %r' % (v[2],)
            for g, t in zip(v[3], us):
                go(t)
                want = tuple((w, info[w][1], tuple(y[0] for y in info[w][3])) for w in in_order(t))
                if g != want:
                    return 'in a second text %s becomes %r' % (told(t), g)
            if len(v[3]) != len(us):
                return 'a second text has %d sentences' % len(v[3])
        verdict(a, rep, 'Parser.parse_text', 'tokens of a document', 'parsing %s' % ' / '.join(told(t) for t in ts), mirrored, 'documents')


def w_(w, pos='NOUN', dep='dep', l=(), r=()):
    return (w, pos, dep, tuple(l), tuple(r))


WIDE = w_('r', 'VERB', 'ROOT', [w_('l%d' % i, ('NOUN', 'PUNCT', 'ADJ')[i % 3]) for i in range(60)], [w_('r%d' % (99 - i), 'NOUN', ('dobj', '', 'punct')[i % 3]) for i in range(70)])
CHAIN = w_('end', 'NOUN')
for _i in range(14):
    CHAIN = w_('c%d' % _i, 'NOUN', 'dep' if _i < 13 else 'ROOT', [CHAIN] if _i % 2 else [], [] if _i % 2 else [CHAIN])
ODD = [WIDE, CHAIN,
       w_('zoo', 'VERB', 'ROOT', [w_('mouse'), w_('cat'), w_('ant')], [w_('zebra'), w_('bee'), w_('ape')]),
       w_('very', 'ADV', 'ROOT', [w_('very', 'ADV'), w_('very', 'ADV')], [w_('very', 'ADV'), w_('very', 'ADV', 'dep', [w_('very', 'ADV')], [w_('very', 'ADV')])]),
       w_('', 'X', 'ROOT', [w_('', 'NOUN')], [w_('', 'PUNCT'), w_('a', ''), w_(' ', 'X')]),
       w_('.', 'NOUN', 'ROOT', [w_(',', 'VERB'), w_('-', 'X'), w_("'s", 'PART')], [w_('!', 'PUNCT', 'punct'), w_('...', 'SYM', 'punct'), w_('a', 'PUNCT', 'dobj')]),
       w_('a', 'PUNCT', 'ROOT', [w_('b', 'SPACE')], [w_('c', 'PUNCT', '', [w_('d', 'NOUN')], [w_('e', 'PUNCT')])])]
POSS = ['PUNCT', 'SPACE', 'punct', 'space', 'PUNCTUATION', 'SPACES', 'PUN', '', 'X', 'SYM', 'NUM', 'PART', 'INTJ', 'CONJ', 'CCONJ', 'AUX', 'DET', 'ADP', 'PRON', 'PROPN', 'EOL', '_SP', 'NO_TAG', ' PUNCT']


def labelled(t, lines, names, kids):
    """driver lines binding each token, in the order of the sentence in names"""
    ls = [labelled(x, lines, [], kids) for x in t[3]]
    rs = [labelled(x, lines, [], kids) for x in t[4]]
    v = 'k%d' % len(lines)
    lines.append('%s = tok(%r, %r, %r, [%s], [%s], lemma=%r)' % (v, t[0], t[1], t[2], ', '.join(ls), ', '.join(rs), v))
    kids[v] = (t, ls, rs)
    return v


def walked(v, kids):
    t, ls, rs = kids[v]
    return [x for k in ls for x in walked(k, kids)] + [v] + [x for k in rs for x in walked(k, kids)]


def odd_tokens(prog, rep):
    for t in ODD:
        lines, kids = [], {}
        root = labelled(t, lines, [], kids)
        names = walked(root, kids)
        for sep in ((), (0,), (len(names) - 1, 1)):
            words = [v for i, v in enumerate(names) if i not in sep and kids[v][0][1] not in ('PUNCT', 'SPACE')]
            body = lines + ['%s.separator = True' % names[i] for i in sep]
            body += ['all = %s.to_list()' % root, 'again = %s.to_list()' % root,
                     'return [[t.lemma for t in all], [t.lemma for t in again], [t.lemma for t in %s.to_word_token_list()], %s.chunk_str(), '
                     '[t.is_word() for t in all], [c.lemma for c in %s.left_children], [c.lemma for c in %s.right_children]]' % (root, root, root, root)]
            a = drive(prog, rep, TREE, '\n'.join(body), 'tokens of %s, %d separators' % (told(t)[:100], len(sep)), unroll=2000)

            def order(v):
                for what, g, w in zip(('the list of tokens', 'the list of tokens made again', 'the list of words'), v, (names, names, words)):
                    if list(g) != w:
                        return '%s is %s instead of %s' % (what, told_list(g, kids), told_list(w, kids))
                if v[3] != ' '.join(kids[x][0][0] for x in words):
                    return 'the chunk is %r' % (v[3],)
                if list(v[4]) != [x in words for x in names]:
                    return 'the words are %s' % told_list([x for x, f in zip(names, v[4]) if f], kids)
                if [list(v[5]), list(v[6])] != list(kids[root][1:]):
                    return 'the children of the token change'
            verdict(a, rep, 'Token.to_list', 'tokens in order', a.label, order, 'token trees')
    for pos in POSS:
        for word in ('w', '', '.', ' '):
            a = drive(prog, rep, TREE, 't = tok(%r, %r, %r)\nreturn [t.is_word(), len(t.to_word_token_list()), len(t.to_list()), t.chunk_str()]' % (word, pos, 'punct' if word == 'w' else 'dep'), '%r with the part of speech %r' % (word, pos))
            yes = pos not in ('PUNCT', 'SPACE')
            verdict(a, rep, 'Token.is_word', 'words', a.label, lambda v: None if v == (yes, int(yes), 1, word if yes else '') else '%s' % (v,), 'words')


def told_list(vs, kids):
    vs = [kids[v][0][0] if v in kids else str(v) for v in vs]
    return ' '.join(vs[:30]) + (' ... (%d)' % len(vs) if len(vs) > 30 else '')


def odd_documents(prog, rep):
    """wide and deep sentences, tokens without a label, words that repeat"""
    src = 'from gb.nlp.parser import Parser\n' + SPACY
    texts = [[t] for t in ODD] + [[ODD[3], ODD[3]], [ODD[5], ODD[4], ODD[6]], [ODD[4]] * 3, []]
    for ts in texts:
        a = drive(prog, rep, src + docs({'t': ts}), """p = Parser()
sents = p.parse_text("t")
toks = [t for s in sents for t in s]
out = []
for s in sents:
    for i, t in enumerate(s):
        out.append([t.word, t.pos, t.dep, 0 if t.parent is None else [j for j, u in enumerate(toks) if u is t.parent], [[j for j, u in enumerate(toks) if u is c] for c in t.left_children], [[j for j, u in enumerate(toks) if u is c] for c in t.right_children]])
return [out, [len(s) for s in sents]]""", 'parsing %s' % ' / '.join(told(t) for t in ts)[:120], unroll=2000, extvals={'spacy.load': mk('cls', 'driver:Model')}, max_steps=4000000)
        want, sizes, base = [], [], 0
        for t in ts:
            lines, kids = [], {}
            root = labelled(t, lines, [], kids)
            names = walked(root, kids)
            at = {v: base + i for i, v in enumerate(names)}
            heads_ = {c: v for v, (_t, ls, rs) in kids.items() for c in ls + rs}
            for v in names:
                x, ls, rs = kids[v]
                want.append((x[0].strip(), x[1], x[2], (at[heads_[v]],) if v in heads_ else 0, tuple((at[c],) for c in ls), tuple((at[c],) for c in rs)))
            base += len(names)
            sizes.append(len(names))

        def mirrored(v):
            if list(v[1]) != sizes:
                return 'the sentences have %s tokens' % ', '.join(map(str, v[1]))
            for i, (g, w) in enumerate(zip(v[0], want)):
                for what, x, y in zip(('word', 'part of speech', 'dependency', 'parent', 'left children', 'right children'), g, w):
                    if x != y:
                        return 'the %s of token %d (%s) is %r instead of %r' % (what, i, w[0], x, y)
        verdict(a, rep, 'Parser.parse_text', 'tokens of a document', a.label, mirrored, 'documents')


def rename(t, p):
    return (p + t[0], t[1], t[2], tuple(rename(x, p) for x in t[3]), tuple(rename(x, p) for x in t[4]))
