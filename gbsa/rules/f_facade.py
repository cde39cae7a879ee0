"""F01 delegation, F03/F04 beliefs, F05 buffered adds: traces of the calls made on the store below the facade."""
from .facade import *
from ..traces import Traces
from ..interp import Limit
from .s_index import edge_term

FACADE = 'gb/hypergraph/hypergraph.py'
BUFFER = 'gb/hypergraph/batch_hypergraph.py'


def ready(prog, rep):
    """the one-or-several test the drivers assume about is the one the code has"""
    if has_def(prog, 'gb.hypergraph.edge', 'is_edge_collection'):
        return True
    rep.undec('gb.hypergraph.edge has no is_edge_collection: single and multiple edges cannot be told apart')
    return False


def traced(rep, a, kinds=('call',), names=None):
    """{exit node: traces} of the store calls, or None"""
    rep.functions |= a.eng.analysed
    if a.imprecise:
        rep.undec('%s: %s' % (a.label, a.imprecise))
        return None

    def rel(n):
        if n.kind == 'mark' and 'mark' in kinds:
            return True
        if n.kind != 'call':
            return False
        f = n.data['func']
        return f.op in ('m', 'attr') and f.a[0] is EXT and (names is None or f.a[1] in names)
    try:
        t = Traces(a, rel)
    except Limit as e:
        rep.undec('%s: %s' % (a.label, e))
        return None
    return t


def meth(nd):
    return nd.data['func'].a[1]


def argn(nd, i, name, dflt=None):
    if i < len(nd.data['args']):
        return nd.data['args'][i]
    return dict(nd.data['kwargs']).get(name, dflt)


# ------------------------------------------------------------------ F01
F01_OPS = [
    ('exists', ('vertex',), 1), ('add', ('edges', 'timestamp'), 2), ('remove', ('edges',), 1), ('pattern2edges', ('pattern',), 1),
    ('star', ('center',), 1), ('symbols_with_root', ('root',), 1), ('destroy', (), 0), ('degree', ('vertex',), 1),
    ('timestamp', ('vertex',), 1), ('batch_exec', ('funs',), 1), ('f_all', ('f',), 1),
]
VALUED = ('exists', 'add', 'pattern2edges', 'star', 'symbols_with_root', 'degree', 'timestamp', 'f_all')

RAW = '''
from gb.hypergraph.hypergraph import HyperGraph


class Store(object):
    def __init__(self, ext):
        self.ext = ext
'''


def raw_stub():
    s = RAW
    for op, ps, _n in F01_OPS:
        sig = ', '.join(p + ('=-1' if (op, p) == ('add', 'timestamp') else '') for p in ps)
        s += '\n    def %s(self%s):\n        return self.ext.%s(%s)\n' % (op, ', ' + sig if sig else '', op, ', '.join(ps))
    s += "\n\ndef facade(ext):\n    hg = HyperGraph({'backend': 'null'})\n    hg.backend = Store(ext)\n    return hg\n"
    return s


def f01(prog, rep, tier):
    rep.rules.append('on every path of each facade operation exactly one operation is asked of the store: the one of the same name, with the caller\'s '
                     'arguments in their roles, and its result is what is returned')
    for op, ps, n in F01_OPS:
        forms = [('positional', ', '.join(ps), ps)]
        if ps:
            forms.append(('keywords', ', '.join('%s=%s' % (p, p) for p in ps), ps))
        if op == 'add':
            forms.append(('default timestamp', 'edges', ('edges',)))
        for form, args, given in forms:
            src = raw_stub() + '\n\ndef drive(ext%s):\n    hg = facade(ext)\n    mark("start")\n    r = hg.%s(%s)\n    mark("end")\n    return r\n' % (
                ''.join(', ' + p for p in given), op, args)
            a = An(prog, src, 'drive', label='HyperGraph.%s (%s)' % (op, form), opaque=lenient, objects=(EXT,))
            t = traced(rep, a)
            if t is None:
                continue
            want = tuple(param(p) for p in given)
            if op == 'add' and len(given) == 1:
                want += (C(-1),)
            cons = 'HyperGraph.%s' % op
            for x, seqs in t.exits.items():
                nd = a.nodes[x]
                if nd.data['kind'] == 'raise':
                    rep.bad('facade operation fails', cons, 'it raises %s' % show(nd.data['value'])[:80])
                    continue
                for seq in seqs:
                    calls = t.flat(seq)
                    if len(seq) != 1 or isinstance(seq[0], tuple) or len(calls) != 1:
                        names = ', '.join(sorted({meth(a.nodes[i]) for i in calls})) or 'nothing'
                        rep.bad('one store operation per call', cons, 'on some path the store is asked for: %s%s' % (
                            names, ' (several times or once per element)' if len(seq) > 1 or len(calls) == 1 else ''),
                            path_of(a.nodes[calls[0]].where) if calls else ())
                        continue
                    c = a.nodes[seq[0]]
                    if meth(c) != op:
                        rep.bad('store operation of another name', cons, 'the store is asked for %s' % meth(c), path_of(c.where))
                        continue
                    bad = [(p, g) for p, g in zip(want, c.data['args']) if p is not g]
                    if len(c.data['args']) != len(want) or any(not vague(g) for p, g in bad):
                        rep.bad('arguments forwarded', cons, '%s is asked for with (%s) instead of (%s)' % (op, ', '.join(show(g)[:50] for g in c.data['args']),
                                                                                                  ', '.join(show(w) for w in want)), path_of(c.where))
                    elif bad:
                        rep.undec('arguments of %s' % a.label)
                    else:
                        rep.ok('operations forwarded')
                if op in VALUED:
                    v = nd.data['value']
                    r = ret_of(v)
                    if r is not None and r[0] == op:
                        rep.ok('results returned')
                    elif cut(v):
                        rep.bad('result of the store', cons, 'it returns only a part of what the store returned: %s' % show(v)[:100])
                    elif op == 'f_all' and has_ret(v, op) and v.op == 'tuple':
                        rep.bad('result of the store', cons, 'what the store returns lazily is read through before it is returned')
                    elif has_ret(v, op) or vague(v) and r is None and v.op != 'tuple':
                        rep.undec('value of %s: %s' % (a.label, show(v)[:80]))
                    else:
                        rep.bad('result of the store', cons, 'it returns %s instead of what the store returned' % show(v)[:80])
    twice(rep, prog)
    rep.sample('hg.degree(vertex) -> store.degree(vertex), result returned')


def cut(v):
    """a slice with a constant bound"""
    return any(t.op == 'slice' and any(is_int(b) and cv(b) != 0 for b in t.a[1:3]) for t in walk(v))


def twice(rep, prog):
    """an operation asked for again is asked of the store again"""
    for op, ps, n in F01_OPS:
        if op in ('destroy', 'batch_exec'):
            continue
        src = raw_stub() + '\n\ndef drive(ext%s, other):\n    hg = facade(ext)\n    hg.%s(%s)\n    hg.add(other)\n    mark("start")\n    r = hg.%s(%s)\n    mark("end")\n    return r\n' % (
            ''.join(', ' + p for p in ps), op, ', '.join(ps), op, ', '.join(ps))
        a = An(prog, src, 'drive', label='HyperGraph.%s again' % op, opaque=lenient, objects=(EXT,))
        t = traced(rep, a)
        if t is None:
            continue
        for x, seqs in t.exits.items():
            if a.nodes[x].data['kind'] == 'raise':
                continue
            for seq in seqs:
                k = sum(1 for i in t.flat(seq) if meth(a.nodes[i]) == op)
                if k < (3 if op == 'add' else 2) and not any(isinstance(y, tuple) for y in seq):
                    rep.bad('one store operation per call', 'HyperGraph.%s' % op, 'asked for a second time, after an edge was added, the store is not asked again')
                else:
                    rep.ok('repeated operations')


def has_ret(v, op):
    return any(ret_of(x) and ret_of(x)[0] == op for x in walk(v))


# ------------------------------------------------------------------ what reaches the store
def entries(a, seq, method):
    """[(domain or None, [alternative turns of [(segment, other args, node)]])] of the calls of a method along a trace"""
    out = []
    for x in seq:
        if isinstance(x, tuple):
            _e, L, coll, alts = x
            if not loop_asks(a, L, method):
                continue
            turns = []
            for al in sorted(alts, key=repr):
                if any(isinstance(y, tuple) or y == 'break' for y in al):
                    turns.append(None)
                    continue
                t = []
                for y in al:
                    if meth(a.nodes[y]) == method:
                        t += node_entries(a.nodes[y])
                turns.append([(generic(s, L), o, n) for s, o, n in t])
            out.append((coll, L, turns))
        elif meth(a.nodes[x]) == method:
            for s, o, n in node_entries(a.nodes[x]):
                g = s
                if g.op == 'spread':
                    out.append((base_coll(g.a[0]), None, [[(mk('one', item(base_coll(g.a[0]), HOLE)), o, n)]]))
                elif g.op == 'many':
                    out.append((g.a[1], None, [[(generic(y, g.a[0]), o, n) for y in segs] for fx, segs in g.a[2]]))
                else:
                    out.append((None, None, [[(g, o, n)]]))
    return out


def loop_asks(a, L, method):
    """some turn of the loop can call the method"""
    c = a.__dict__.setdefault('_asks', {})
    if (L, method) not in c:
        r = False
        for h in a.by('loop'):
            if h.data['L'] == L:
                for k in a.reach(h.succ, lambda n: n.id == h.id):
                    n = a.nodes[k]
                    if n.kind == 'call' and n.data['func'].op in ('m', 'attr') and n.data['func'].a[0] is EXT and meth(n) == method and \
                            h.id in a.reach([k]):
                        r = True
        c[(L, method)] = r
    return c[(L, method)]


HOLE = mk('it', '#')


def generic(s, L):
    return subst(s, {mk('it', L): HOLE})


def node_entries(nd):
    """edges a call of add or remove is about: [(segment, timestamp, node)]"""
    x = nd.data['args'][0]
    o = nd.data['args'][1] if len(nd.data['args']) > 1 else None
    t = x
    if t.op == 'uniq':
        t = t.a[0]
    if t.op == 'tuple':
        segs = t.a[0]
        ok = True
        for g in segs:
            if g.op == 'one' and not is_edge(g.a[0]):
                ok = False
        if ok and segs:
            return [(g, o, nd) for g in segs]
        return [(mk('one', t), o, nd)]
    if t.op == 'param' and t.a[0] in COLLS:
        return [(mk('spread', t), o, nd)]
    return [(mk('one', x), o, nd)]


def source_const(prog, rep):
    """the source relation: value of gb.hypergraph.constants.source"""
    a = An(prog, 'import gb.hypergraph.constants as const\n\ndef drive():\n    return const.source\n', 'drive', label='const.source')
    for x in a.exits('r'):
        return x.data['value']
    return None


# ------------------------------------------------------------------ F03
def f03(prog, rep, tier):
    rep.rules.append('set of edges handed to the store by add_belief on every path = each given edge and its link to the source; '
                     'sources = third elements of the edges the store returns for the link pattern')
    if not ready(prog, rep):
        return
    src = source_const(prog, rep)
    for batch in (False, True):
        make = 'hg = buffered(ext, 1000)' if batch else 'hg = facade(ext)'
        cls = 'BatchHyperGraph' if batch else 'HyperGraph'
        fl = '\nhg.flush()' if batch else ''
        for what, ps, pre, call in (('one edge', 'source, edge, ts', 'pass', 'hg.add_belief(source, edge, ts)'),
                                    ('several edges', 'source, edges, ts', 'pass', 'hg.add_belief(source, edges, ts)'),
                                    ('two edges', 'source, e1, e2, ts', 'pass',
                                     'hg.add_belief(source, (e1, e2), ts)')):
            a = fdrive(prog, '\n'.join([make, pre, 'mark("start")', call + fl, 'mark("end")']), ps, '%s.add_belief of %s' % (cls, what), batch)
            t = traced(rep, a)
            if t is None:
                continue
            cons = '%s.add_belief' % cls
            for x, seqs in t.exits.items():
                if a.nodes[x].data['kind'] == 'raise':
                    rep.bad('add_belief fails', cons, 'with %s it raises %s' % (what, show(a.nodes[x].data['value'])[:80]))
                    continue
                for seq in seqs:
                    belief_trace(a, rep, t, seq, src, what, cons)
    sources_rule(prog, rep, src)


def belief_trace(a, rep, t, seq, src, what, cons):
    other = sorted({meth(a.nodes[i]) for i in t.flat(seq)} - {'add', 'batch_begin', 'batch_end', 'exists', 'pattern2edges', 'degree', 'timestamp', 'star'})
    if other:
        rep.bad('add_belief does more', cons, 'the store is also asked to %s' % ', '.join(other))
    es = entries(a, seq, 'add')
    # an edge found to be stored already need not be added again
    known = set()
    for c, m, args, kw in store_calls(a):
        if m == 'exists' and args:
            y = args[0]
            known.add(subst(y, {z: HOLE for z in walk(y) if z.op == 'it'}))
    got = set()
    node = None
    # entries of loops over the same collection are pooled
    for coll, L, turns in es:
        if any(tn is None for tn in turns):
            rep.undec('%s: trace' % a.label)
            return
        if coll is None:
            for g, ts, n in turns[0]:
                got.add((None, g.a[0]))
                node = n
        else:
            if base_coll(coll) is not param('edges') and not vague(coll):
                rep.bad('beliefs of every edge', cons, 'with %s, only edges of %s are stored' % (what, show(coll)[:60]))
                return
            if turns:
                common = None
                for tn in turns:
                    s = {g.a[0] if g.op == 'one' else g for g, ts, n in tn} | known
                    node = tn[0][2] if tn else node
                    common = s if common is None else common & s
                    if common != s:
                        extra = sorted(show(y)[:60] for y in s ^ common)
                        if not any(vague(y) for y in s):
                            rep.bad('edge and link for every edge', cons, 'with %s, for some edges only: %s' % (what, ', '.join(extra)))
                            return
                        rep.undec('%s: what is stored per edge' % a.label)
                        return
                got |= {('each', y) for y in common}
            else:
                got.add(('each', None))
    if ('each', None) in got:
        rep.ok('empty collections')
        return
    if what == 'several edges':
        e = item(param('edges'), HOLE)
        want = {('each', e), ('each', tup(src, e, param('source')))}
    else:
        want = set()
        for n in (('edge',) if what == 'one edge' else ('e1', 'e2')):
            e = param(n)
            want |= {(None, e), (None, tup(src, e, param('source')))}
    if got == want or got <= want and all(y in known for _d, y in want - got):
        rep.ok('beliefs stored', len(want))
        return
    if any(isinstance(y, T) and vague(y) for _d, y in got):
        rep.undec('%s: stores %s' % (a.label, [show(y)[:60] for _d, y in got]))
        return
    miss = ', '.join(sorted(show(y)[:80] for _d, y in want - got)) or '-'
    extra = ', '.join(sorted(show(y)[:80] for _d, y in got - want)) or '-'
    rep.bad('edge and link for every edge', cons, 'with %s: not stored: %s; stored instead: %s' % (what, miss, extra), path_of(node.where) if node else ())


def sources_rule(prog, rep, src):
    for batch in (False, True):
        make = 'hg = buffered(ext, 1000)' if batch else 'hg = facade(ext)'
        cls = 'BatchHyperGraph' if batch else 'HyperGraph'
        cons = '%s.sources' % cls
        a = fdrive(prog, '\n'.join([make, 'mark("start")', 'r = hg.sources(edge)', 'mark("end")', 'return r']), 'edge', cons, batch)
        t = traced(rep, a)
        if t is None:
            continue
        want = tup(src, param('edge'), NONE)
        for x, seqs in t.exits.items():
            nd = a.nodes[x]
            if nd.data['kind'] == 'raise':
                rep.bad('sources fails', cons, 'it raises %s' % show(nd.data['value'])[:80])
                continue
            for seq in seqs:
                look = [a.nodes[i] for i in t.flat(seq) if meth(a.nodes[i]) not in ('batch_begin', 'batch_end')]
                for c in look:
                    if meth(c) != 'pattern2edges':
                        if meth(c) == 'star':
                            rep.undec('%s: computed from %s' % (cons, meth(c)))
                        else:
                            rep.bad('sources lookup', cons, 'the store is asked for %s' % meth(c), path_of(c.where))
                    elif c.data['args'][0] is not want:
                        if vague(c.data['args'][0]):
                            rep.undec('%s: pattern' % cons)
                        else:
                            rep.bad('sources lookup', cons, 'the pattern is %s instead of %s' % (show(c.data['args'][0])[:80], show(want)), path_of(c.where))
                    else:
                        rep.ok('source lookups')
            # the result: one value per returned edge, its third element, none dropped
            v = nd.data['value']
            if cut(v):
                rep.bad('sources returned', cons, 'it returns only a part of the sources: %s' % show(v)[:100])
                continue
            while v.op in ('uniq', 'sorted'):
                v = v.a[0]
            if v.op == 'tuple' and len(v.a[0]) == 1 and v.a[0][0].op == 'many':
                L, coll, alts = v.a[0][0].a
                r = ret_of(base_coll(coll))
                if r is not None and r[0] == 'star':
                    from_star(rep, cons, v, item(coll, mk('it', L)), alts)
                    continue
                if r is None or r[0] != 'pattern2edges':
                    rep.undec('%s: result %s' % (cons, show(v)[:80]))
                    continue
                for fx, segs in alts:
                    good = [g for g in segs if g.op == 'one' and third(g.a[0], coll)]
                    if len(alts) == 1 and not fx and len(segs) == 1 and good:
                        rep.ok('sources returned')
                    elif fx and not segs:
                        rep.bad('sources returned', cons, 'some linked sources are left out: %s' % show(mk('c', fx))[:100])
                    elif any(g.op == 'one' and g.a[0].op == 'item' and is_int(g.a[0].a[1]) and not third(g.a[0], coll) for g in segs):
                        rep.bad('sources returned', cons, 'it returns %s of each link instead of the source' % ', '.join(
                            'element %s' % show(g.a[0].a[1]) for g in segs))
                    else:
                        rep.undec('%s: result %s' % (cons, show(v)[:80]))
            elif is_c(v) or v.op == 'tuple' and not v.a[0]:
                rep.undec('%s: result %s' % (cons, show(v)[:80]))
            else:
                r = ret_of(v)
                if r:
                    rep.bad('sources returned', cons, 'it returns the links instead of the sources')
                else:
                    rep.undec('%s: result %s' % (cons, show(v)[:80]))


def from_star(rep, cons, v, e, alts):
    """sources picked from all the edges around the edge: each kept one must have been tested to be a link of this edge"""
    for fx, segs in alts:
        if not segs:
            continue
        if not all(g.op == 'one' and g.a[0].op == 'item' and g.a[0].a[0] is e for g in segs):
            rep.undec('%s: result %s' % (cons, show(v)[:80]))
            continue
        for i, what in ((0, 'that the edge is a source link'), (1, 'that the link is about this edge')):
            mine, other = item(e, C(i)), mk('len', e)
            conds = [c for c, _p in fx]
            if any(has(c, mine) for c in conds):
                rep.ok('links recognised')
            elif not any(has(subst(c, {other: HOLE, **{item(e, C(k)): HOLE for k in ((1, 2, -1, -2) if i == 0 else (0, 2, -1, -3))}}), e) for c in conds):
                rep.bad('sources returned', cons, 'of the edges around the edge it keeps some without testing %s: %s' % (what, ', '.join(
                    show(c)[:80] for c in conds) or 'no test'))
            else:
                rep.undec('%s: which edges are kept' % cons)


def third(t, coll):
    return t.op == 'item' and is_int(t.a[1]) and cv(t.a[1]) in (2, -1) and t.a[0].op == 'item'


# ------------------------------------------------------------------ F04
def f04(prog, rep, tier):
    rep.rules.append('every path of remove_belief: the link is removed; then the links of the edge are looked up; the edge is removed exactly on the '
                     'paths on which that lookup came back empty; nothing else is removed or added')
    if not ready(prog, rep):
        return
    src = source_const(prog, rep)
    pat = tup(src, param('edge'), NONE)
    link = tup(src, param('edge'), param('source'))
    for batch in (False, True):
        make = 'hg = buffered(ext, 1000)' if batch else 'hg = facade(ext)'
        cls = 'BatchHyperGraph' if batch else 'HyperGraph'
        cons = '%s.remove_belief' % cls
        a = fdrive(prog, '\n'.join(['import gb.hypergraph.constants as const', make, 'mark("start")',
                                    'r = hg.remove_belief(source, edge)', 'mark("end")', 'return r']), 'source, edge', cons, batch)
        t = traced(rep, a)
        if t is None:
            continue
        for x, seqs in t.exits.items():
            nd = a.nodes[x]
            if nd.data['kind'] == 'raise':
                rep.bad('remove_belief fails', cons, 'it raises %s' % show(nd.data['value'])[:80])
                continue
        # typestate along paths: (link removed, last lookup (node id, after link), edge removed, emptiness of the last lookup)
        look = {}
        for n in a.by('call'):
            f = n.data['func']
            if f.op in ('m', 'attr') and f.a[0] is EXT and f.a[1] == 'pattern2edges':
                look[n.id] = n

        def is_lookup(n):
            return n.data['args'] and n.data['args'][0] is pat

        vg = []
        rets = {}
        for n in look.values():
            for y in walk_all(a):
                if y.op == 'ret' and y.a[0] is n.data['func'] and y.a[1] == n.data['args']:
                    rets[y] = n.id

        def empt(f, s):
            """what the facts of an edge say about the links found by the last lookup"""
            r = None
            for c, val in f.items():
                if c.op == 'some':
                    b = whole(c.a[0])
                    if b is not None and b in rets:
                        r = val
                elif c.op in ('eq', 'lt') and any(y in rets for y in walk(c)):
                    vg.append(c)
            return r

        def step(n, s):
            link_gone, lk, gone, some_ = s
            if n.kind != 'call' or not (n.data['func'].op in ('m', 'attr') and n.data['func'].a[0] is EXT):
                return [s]
            m = meth(n)
            if m == 'remove':
                x = n.data['args'][0]
                segs = [g for g, o, _n in node_entries(n)]
                for g in segs:
                    y = g.a[0] if g.op == 'one' else None
                    if y is link:
                        link_gone = True
                        if lk != 'others':
                            lk, some_ = (None, None)
                    elif y is param('edge') or y is tup(param('edge')):
                        if lk is None and not link_gone:
                            rep.bad('fact removed before its link', cons, 'the fact is removed before the link of the source', path_of(n.where))
                        elif lk is None or lk == 'stale':
                            if lk is None and vg:
                                rep.undec('%s: condition of the removal' % cons)
                            elif lk == 'stale':
                                rep.bad('sources looked up too early', cons, 'the fact is removed depending on sources looked up before the link was removed',
                                        path_of(n.where))
                            else:
                                rep.bad('fact removed without asking for sources', cons, 'the fact is removed without a look at the sources that are left',
                                        path_of(n.where))
                        elif some_ is True:
                            rep.bad('fact removed while supported', cons, 'the fact is removed although a source is left', path_of(n.where))
                        elif some_ is None:
                            if vg:
                                rep.undec('%s: condition of the removal' % cons)
                            else:
                                rep.bad('fact removed whatever sources are left', cons, 'no condition on the sources left guards the removal', path_of(n.where))
                        else:
                            rep.ok('guarded removals')
                        gone = True
                    elif of_call(x) is not None:
                        q, args = of_call(x)
                        if q == 'pattern2edges' and args and args[0] is link:
                            link_gone = True
                            lk, some_ = (None, None)
                        elif q in ('star', 'pattern2edges'):
                            rep.bad('something else is removed', cons, 'every edge that %s(%s) gives is removed' % (q, ', '.join(show(z)[:60] for z in args)), path_of(n.where))
                        else:
                            rep.undec('%s: removes %s' % (cons, show(x)[:60]))
                    elif vague(x):
                        rep.undec('%s: removes %s' % (cons, show(x)[:60]))
                    else:
                        rep.bad('something else is removed', cons, 'remove(%s)' % show(x)[:80], path_of(n.where))
                return [(link_gone, lk, gone, some_)]
            if m == 'pattern2edges' and is_lookup(n):
                return [(link_gone, n.id if link_gone else 'stale', gone, None)]
            if m == 'pattern2edges' and not vague(n.data['args'][0]):
                rep.bad('sources lookup', cons, 'the pattern is %s instead of %s' % (show(n.data['args'][0])[:80], show(pat)), path_of(n.where))
                return [s]
            if m in ('add', 'destroy', 'remove_by_pattern'):
                rep.bad('remove_belief does more', cons, 'the store is also asked to %s' % m, path_of(n.where))
            return [s]

        def filt(s, f):
            link_gone, lk, gone, some_ = s
            for c, val in f.items():
                if c.op == 'some' and others(c.a[0], param('source')) in rets:
                    if lk == 'others' and some_ is not None and some_ != val:
                        return None
                    lk, some_ = 'others', val
            if lk == 'others':
                return (link_gone, lk, gone, some_)
            if lk is None or lk == 'stale':
                return s
            e = empt(f, s)
            if e is not None:
                if some_ is not None and some_ != e:
                    return None
                return (link_gone, lk, gone, e)
            return s
        before = a.flow([(False, None, False, None)], step, filt)
        for x in a.exits('r'):
            for link_gone, lk, gone, some_ in before.get(x.id, ()):
                if not link_gone:
                    rep.bad('link kept', cons, 'on some path the link of the source to the fact is not removed')
                elif some_ is False and not gone:
                    rep.bad('unsupported fact kept', cons, 'on some path no source is left and the fact is not removed')
                elif some_ is None and not gone:
                    if vg:
                        rep.undec('%s: condition of the removal' % cons)
                    else:
                        rep.bad('unsupported fact kept', cons, 'on some path the fact is kept without knowing that a source is left')
                else:
                    rep.ok('paths')


def others(t, source):
    """the lookup t is made from, if t has an element exactly if the lookup gives a link of another source"""
    while True:
        if t.op in ('uniq', 'sorted', 'reversed'):
            t = t.a[0]
            continue
        if t.op == 'setminus':
            b = t.a[1]
            while b.op == 'uniq':
                b = b.a[0]
            return whole(t.a[0]) if b is tup(source) else None
        if t.op == 'removed':
            return whole(t.a[0]) if t.a[1] is source else None
        if t.op == 'tuple' and len(t.a[0]) == 1:
            g = t.a[0][0]
            if g.op == 'spread':
                t = g.a[0]
                continue
            if g.op == 'many':
                L, coll, alts = g.a
                e = item(coll, mk('it', L))
                for fx, segs in alts:
                    if len(fx) != 1:
                        return None
                    c, val = fx[0]
                    if c.op != 'eq' or val is bool(segs):
                        return None
                    y = [z for z in c.a if z is not source]
                    if len(y) != 1 or not (y[0] is e or third(y[0], coll) and y[0].a[0] is e):
                        return None
                return whole(coll)
        return None


def of_call(x):
    """(method, args) if x is an element of what a call on the store returned"""
    if x.op == 'item' and x.a[1].op == 'it':
        r = x.a[0]
        while r.op in ('uniq', 'sorted', 'reversed') or r.op == 'tuple' and len(r.a[0]) == 1 and r.a[0][0].op == 'spread':
            r = r.a[0] if r.op != 'tuple' else r.a[0][0].a[0]
        return ret_of(r)
    return None


def walk_all(a):
    seen = set()
    for fl in a.eng.efacts.values():
        for f in fl:
            for c in f:
                for y in walk(c):
                    if y not in seen:
                        seen.add(y)
                        yield y


def whole(t):
    """the collection t has an element exactly if the returned one has: one value per element, nothing filtered"""
    while True:
        if t.op in ('uniq', 'sorted', 'reversed'):
            t = t.a[0]
            continue
        if t.op == 'tuple' and len(t.a[0]) == 1:
            g = t.a[0][0]
            if g.op == 'spread':
                t = g.a[0]
                continue
            if g.op == 'many' and all(segs for fx, segs in g.a[2]):
                t = g.a[1]
                continue
            return None
        return t if t.op == 'ret' else None


# ------------------------------------------------------------------ F05
CASES = [
    # label, params, singles, several, body, expected, size
    ('one edge, several edges, one edge, flush', 'e1, edges, e2, t1, t2', ('e1', 'e2'), ('edges',),
     'hg.add(e1, t1)\nhg.add(edges, t2)\nhg.add(e2)\nmark("start")\nhg.flush()\nhg.flush()', [('e1', 't1'), ('*edges', 't2'), ('e2', None)], 1000),
    ('adds beyond the size of the buffer', 'e1, e2, e3, t1, t2', ('e1', 'e2', 'e3'), (),
     'hg.add(e1, t1)\nhg.add(e2, t2)\nhg.add(e3)\nmark("full")\nhg.flush()', [('e1', 't1'), ('e2', 't2'), ('e3', None)], 1),
    ('adds with a timestamp beyond the size of the buffer', 'e1, e2, e3, t1, t2', ('e1', 'e2', 'e3'), (),
     'hg.add(e1, t1)\nhg.add(e2, t2)\nhg.add(e3, t1)\nmark("full")\nhg.flush()', [('e1', 't1'), ('e2', 't2'), ('e3', 't1')], 1),
    ('adds without a timestamp beyond the size of the buffer', 'e1, e2, e3, t9', ('e1', 'e2', 'e3'), (),
     'hg.add(e1)\nhg.add(e2)\nhg.add(e3)\nmark("full")\nhg.flush()', [('e1', None), ('e2', None), ('e3', None)], 1),
    ('three edges at once beyond the size of the buffer', 'e1, e2, e3, t1', ('e1', 'e2', 'e3'), (),
     'hg.add((e1, e2, e3), t1)\nmark("full")\nhg.flush()', [('e1', 't1'), ('e2', 't1'), ('e3', 't1')], 1),
    ('several edges beyond the size of the buffer', 'e1, edges, e2, t1, t2', ('e1', 'e2'), ('edges',),
     'hg.add(e1, t1)\nhg.add(edges, t2)\nhg.add(e2, t1)\nhg.flush()', [('e1', 't1'), ('*edges', 't2'), ('e2', 't1')], 1),
    ('a generator of edges', 'e1, edges, t1, t2', ('e1',), ('edges',),
     'hg.add(e1, t1)\nhg.add(edges, t2)\nhg.flush()', [('e1', 't1'), ('*edges', 't2')], 5),
    ('flush with a timestamp', 'e1, e2, t1, t9', ('e1', 'e2'), (),
     'assume(t1 != -1)\nhg.add(e1, t1)\nhg.add(e2)\nhg.flush(t9)', [('e1', 't1'), ('e2', 't9')], 1000),
    ('two flushes', 'e1, e2, t1, t2', ('e1', 'e2'), (),
     'hg.add(e1, t1)\nhg.flush()\nhg.add(e2, t2)\nhg.flush()\nhg.flush()', [('e1', 't1'), ('e2', 't2')], 1000),
    ('two buffered hypergraphs', 'e1, e2, t1, t2', ('e1', 'e2'), (),
     'other = buffered(ext, 1000)\nhg.add(e1, t1)\nother.add(e2, t2)\nhg.flush()\nother.flush()\nhg.flush()', [('e1', 't1'), ('e2', 't2')], 1000),
    ('several edges, one of them made of edges', 'x, y, e2, t1', ('e2',), (),
     'hg.add((((x, y), (y, x)), e2), t1)\nhg.flush()', [('((x, y), (y, x))', 't1'), ('e2', 't1')], 1000),
    ('an empty buffer', '', (), (), 'hg.flush()\nhg.flush(7)', [], 1000),
]


def f05(prog, rep, tier):
    rep.rules.append('sequence of edges handed to the store along every path = the sequence added, each with its timestamp; after a failure at any '
                     'store call the next flush hands over everything again; caller collections keep their value')
    if not ready(prog, rep):
        return
    for label, ps, ones, sev, body, want, size in CASES:
        buffered_case(prog, rep, label, ps, ones, sev, body, want, size)
    buffered_removal(prog, rep)
    buffered_failure(prog, rep)
    buffered_alias(prog, rep)


def pre_lines(prog, ones, sev):
    out = ['assume(%s)' % s for s in sev]
    return '\n'.join(out) or 'pass'


def seq_match(a, es, want):
    """None if the handed-over sequence is the expected one, else a description; '?' if it cannot be told"""
    i = 0
    for coll, L, turns in es:
        if any(tn is None for tn in turns):
            return '?'
        if coll is not None and turns and all(not tn for tn in turns):
            continue        # a loop that hands nothing over in any turn
        if coll is not None and vague(coll):
            return '?'
        if i >= len(want):
            if coll is not None and not turns:
                continue
            return 'more than was added reaches the store: %s' % show_entry(coll, turns)
        name, ts = want[i]
        wt = C(-1) if ts is None else param(ts)
        if coll is None:
            g, t, n = turns[0][0]
            if name.startswith('*') or g.a[0] is not (edge_term(name, ()) if name.startswith('(') else param(name)):
                return wrong(coll, turns, name)
            if not (t is wt or same_ts2(t, wt, n.facts)):
                return '?' if vague(t) else '%s is stored with timestamp %s instead of %s' % (name, show(t), show(wt))
        else:
            if not name.startswith('*'):
                if not turns:
                    continue
                return wrong(coll, turns, name)
            c = param(name[1:])
            if base_coll(coll) is not c or coll.op in ('reversed', 'sorted'):
                return '?' if vague(coll) else '%s reaches the store instead of the elements of %s in order' % (show(coll)[:60], name[1:])
            for tn in turns:
                if len(tn) != 1 or tn[0][0].op != 'one':
                    return '%d times each element of %s reaches the store' % (len(tn), name[1:])
                g, t, n = tn[0]
                e = g.a[0]
                if e is not item(c, HOLE) and not elem_of(e, c):
                    return '?' if vague(e) else '%s reaches the store instead of an element of %s' % (show(e)[:60], name[1:])
                if not (t is wt or same_ts2(t, wt, n.facts)):
                    return '?' if vague(t) else 'an edge of %s is stored with timestamp %s instead of %s' % (name[1:], show(t)[:40], show(wt))
        i += 1
    if i < len(want):
        return '%s never reaches the store' % want[i][0]
    return None


def elem_of(e, c):
    """e is the element of c at the position of the turn"""
    if e.op == 'item' and e.a[0].op == 'item':
        return False
    return e.op == 'item' and base_coll(e.a[0]) is c and e.a[1] is HOLE


def wrong(coll, turns, name):
    return '%s reaches the store where %s is due' % (show_entry(coll, turns), name)


def show_entry(coll, turns):
    x = ' / '.join(', '.join(show(g)[:50] for g, t, n in tn) for tn in turns)
    return x + (' for each of %s' % show(coll)[:40] if coll is not None else '')


def same_ts2(t, want, facts):
    return facts.get(mk('eq', t, want)) is True or facts.get(mk('eq', want, t)) is True


def reorder(es, want):
    """entries of collections whose loop ran no turn stand for the empty collection"""
    return es


def buffered_case(prog, rep, label, ps, ones, sev, body, want, size):
    lines = ['hg = buffered(ext, %d)' % size, pre_lines(prog, ones, sev), 'mark("begin")', body, 'mark("end")']
    a = fdrive(prog, '\n'.join(lines), ps, 'BatchHyperGraph, %s' % label, True)
    t = traced(rep, a, kinds=('call', 'mark'))
    if t is None:
        return
    cons = 'BatchHyperGraph.flush'
    for x, seqs in t.exits.items():
        if a.nodes[x].data['kind'] == 'raise':
            rep.bad('buffered operation fails', cons, '%s: it raises %s' % (label, show(a.nodes[x].data['value'])[:80]))
            continue
        for seq in seqs:
            calls = tuple(y for y in seq if isinstance(y, tuple) or a.nodes[y].kind == 'call')
            es = entries(a, calls, 'add')
            m = seq_match(a, es, want)
            if m == '?':
                rep.undec('%s: %s' % (a.label, 'sequence'))
            elif m:
                nd = first_node(a, t, calls)
                rep.bad('added edges reach the store once, in order', cons, '%s: %s' % (label, m), path_of(nd.where) if nd else ())
            else:
                rep.ok('sequences', max(1, len(want)))
            other = {meth(a.nodes[i]) for i in t.flat(calls)} - {'add', 'batch_begin', 'batch_end', 'exists'}
            if other:
                rep.bad('buffered add does more', cons, '%s: the store is asked to %s' % (label, ', '.join(sorted(other))))
            if 'mark("full")' in body:
                k = [i for i, y in enumerate(seq) if not isinstance(y, tuple) and a.nodes[y].kind == 'mark' and a.nodes[y].data['label'] == 'full']
                if k and not entries(a, tuple(y for y in seq[:k[0]] if isinstance(y, tuple) or a.nodes[y].kind == 'call'), 'add'):
                    rep.bad('a full buffer is flushed', 'BatchHyperGraph.add', 'three edges stay in a buffer of size one')
                else:
                    rep.ok('full buffers')
    rep.sample('%s -> store.add of %s' % (label, ', '.join(w[0] for w in want) or 'nothing'))


def first_node(a, t, seq):
    f = [i for i in t.flat(seq) if meth(a.nodes[i]) == 'add']
    return a.nodes[f[0]] if f else None


def split_marks(a, seq, label):
    for i, y in enumerate(seq):
        if not isinstance(y, tuple) and a.nodes[y].kind == 'mark' and a.nodes[y].data['label'] == label:
            return seq[:i], seq[i + 1:]
    return None


def only_calls(a, seq):
    return tuple(y for y in seq if isinstance(y, tuple) or a.nodes[y].kind == 'call')


def buffered_removal(prog, rep):
    """buffered edges reach the store before a removal looks at it"""
    for op, call, first in (('remove', 'hg.remove(e2)', ('remove',)), ('remove_by_pattern', 'hg.remove_by_pattern((x, None))', ('pattern2edges', 'remove')),
                            ('remove_belief', 'hg.remove_belief(x, e2)', ('pattern2edges', 'remove'))):
        lines = ['import gb.hypergraph.constants as const', 'hg = buffered(ext, 1000)', pre_lines(prog, ('e1', 'e2'), ()),
                 'hg.add(e1, t1)', 'mark("start")', call, 'mark("end")', 'hg.flush()']
        a = fdrive(prog, '\n'.join(lines), 'e1, e2, x, t1', 'BatchHyperGraph.%s' % op, True)
        t = traced(rep, a, kinds=('call', 'mark'))
        if t is None:
            continue
        for x, seqs in t.exits.items():
            if a.nodes[x].data['kind'] != 'r':
                rep.bad('buffered operation fails', 'BatchHyperGraph.%s' % op, 'it raises %s' % show(a.nodes[x].data['value'])[:80])
                continue
            for seq in seqs:
                calls = only_calls(a, seq)
                m = seq_match(a, entries(a, calls, 'add'), [('e1', 't1')])
                if m == '?':
                    rep.undec(a.label)
                    continue
                if m:
                    rep.bad('added edges reach the store once, in order', 'BatchHyperGraph.%s' % op, m)
                    continue
                fl = t.flat(calls)
                names = [meth(a.nodes[i]) for i in fl]
                adds = [i for i, nm in enumerate(names) if nm == 'add']
                rem = [i for i, nm in enumerate(names) if nm in first]
                if rem and adds and min(rem) < max(adds):
                    rep.bad('removal includes buffered edges', 'BatchHyperGraph.%s' % op, 'the store is asked to %s before the buffered edges are added' % names[min(rem)],
                            path_of(a.nodes[fl[min(rem)]].where))
                else:
                    rep.ok('removals after flush')
    # destroy: nothing added before comes back
    lines = ['hg = buffered(ext, 1000)', pre_lines(prog, ('e1',), ()), 'hg.add(e1, t1)', 'hg.destroy()', 'mark("gone")', 'hg.flush()']
    a = fdrive(prog, '\n'.join(lines), 'e1, t1', 'BatchHyperGraph.destroy', True)
    t = traced(rep, a, kinds=('call', 'mark'))
    if t is not None:
        for x, seqs in t.exits.items():
            for seq in seqs:
                sp = split_marks(a, seq, 'gone')
                if sp and entries(a, only_calls(a, sp[1]), 'add'):
                    rep.bad('destroyed edges come back', 'BatchHyperGraph.destroy', 'an edge added before destroy reaches the store after it')
                elif sp:
                    rep.ok('destroy')


def buffered_failure(prog, rep):
    """whatever store call fails, the next flush hands over everything that was buffered"""
    for label, ps, ones, sev, body, retry, want, size in (
            ('a failing flush', 'e1, edges, t1, t2', ('e1',), ('edges',), 'hg.add(e1, t1)\nhg.add(edges, t2)', 'hg.flush()', [('e1', 't1'), ('*edges', 't2')], 100000),
            ('a failing flush of a full buffer', 'e1, e2, t1, t2', ('e1', 'e2'), (), 'hg.add(e1, t1)', 'hg.add(e2, t2)', [('e1', 't1'), ('e2', 't2')], 1),
            ('a failing flush before a removal', 'e1, e3, t1', ('e1', 'e3'), (), 'hg.add(e1, t1)', 'hg.remove(e3)', [('e1', 't1')], 1000)):
        lines = ['hg = buffered(ext, %d)' % size, pre_lines(prog, ones, sev), body, 'mark("armed")', 'faults(True)', 'try:', '    ' + retry, '    return None',
                 'except Exception:', '    faults(False)', '    mark("failed")', '    hg.flush()', 'mark("end")',
                 'return True']
        a = fdrive(prog, '\n'.join(lines), ps, 'BatchHyperGraph, %s' % label, True, callback_raises=True)
        t = traced(rep, a, kinds=('call', 'mark'))
        if t is None:
            continue
        n = 0
        for x, seqs in t.exits.items():
            for seq in seqs:
                sp = split_marks(a, seq, 'failed')
                if sp is None:
                    continue
                n += 1
                # a failure of the removal itself comes after the buffered edges were accepted
                if any(meth(a.nodes[i]) == 'remove' for i in t.flat(only_calls(a, sp[0]))):
                    continue
                pre, mid = split_marks(a, sp[0], 'armed')
                m = seq_match(a, entries(a, only_calls(a, pre) + only_calls(a, sp[1]), 'add'), want)
                if m == '?':
                    rep.undec(a.label)
                elif m:
                    rep.bad('buffer emptied before the store accepted it', 'BatchHyperGraph.flush', '%s: at the next flush, %s' % (label, m))
                else:
                    rep.ok('failures survived')
        if not n:
            rep.undec('%s: no failing path' % a.label)


def buffered_alias(prog, rep):
    """collections of the caller are neither modified nor relied upon after the call"""
    one = pre_lines(prog, ('e1', 'e2', 'e3'), ())
    for label, body, size in (
            ('list of edges', 'lst = [e1, e2]\nhg.add(lst, t1)\nhg.add(e3, t2)\nmark("value", lst)\nhg.flush()\nmark("value", lst)', 1000),
            ('list of edges, full buffer', 'lst = [e1, e2]\nhg.add(lst, t1)\nmark("value", lst)\nhg.add(e3, t2)\nmark("value", lst)\nhg.flush()', 1),
            ('list changed by the caller afterwards', 'lst = [e1, e2]\nhg.add(lst, t1)\nlst.clear()\nhg.add(e3, t2)\nhg.flush()', 1000),
            ('list emptied by the caller afterwards', 'lst = [e1, e2]\nhg.add(lst, t1)\ndel lst[:]\nhg.add(e3, t2)\nhg.flush()', 1000)):
        a = fdrive(prog, '\n'.join(['hg = buffered(ext, %d)' % size, one, body]), 'e1, e2, e3, t1, t2', 'BatchHyperGraph, %s' % label, True)
        t = traced(rep, a, kinds=('call', 'mark'))
        if t is None:
            continue
        want = tup(param('e1'), param('e2'))
        for n in a.by('mark'):
            if n.data['label'] == 'value':
                v = n.data['args'][0]
                if v is want:
                    rep.ok('caller collections unchanged')
                elif vague(v):
                    rep.undec(a.label)
                else:
                    rep.bad('collection of the caller modified', 'BatchHyperGraph.add', '%s: afterwards it is %s' % (label, show(v)[:80]))
        for x, seqs in t.exits.items():
            if a.nodes[x].data['kind'] != 'r':
                continue
            for seq in seqs:
                m = seq_match(a, entries(a, only_calls(a, seq), 'add'), [('e1', 't1'), ('e2', 't1'), ('e3', 't2')])
                if m == '?':
                    rep.undec(a.label)
                elif m:
                    rep.bad('added edges reach the store once, in order', 'BatchHyperGraph.add', '%s: %s' % (label, m))
                else:
                    rep.ok('sequences', 3)
