"""Q01, Q02: the graph queries, interpreted over model stores with a few edges between distinct vertices."""
import itertools

from .facade import *
from .model import drive, outcome

MODEL = '''
from gb.hypergraph.hypergraph import HyperGraph

EDGES = %r
DEGREES = %r


class Store(object):
    def star(self, center):
        return %s([e for e in EDGES if center in e])

    def degree(self, vertex):
        return DEGREES.get(vertex, 3)

    def exists(self, vertex):
        return vertex in EDGES


def facade():
    hg = HyperGraph({'backend': 'null'})
    hg.backend = Store()
    return hg
'''

DEEP = 24
# model graphs: a name and its edges
IS, HAS, SAYS = 'is/1', 'has/1', 'says/1'
A, B, C1, D, E, F = 'a/1', 'b/1', 'c/1', 'd/1', 'e/1', 'f/1'
GRAPHS = [
    ('one edge', [(IS, A, B)]),
    ('a chain', [(IS, A, B), (HAS, B, C1), (IS, C1, D), (HAS, D, E)]),
    ('a ring', [(IS, A, B), (IS, B, C1), (IS, C1, D), (IS, D, A)]),
    ('a star', [(IS, A, B), (IS, A, C1), (IS, A, D), (HAS, D, E)]),
    ('a long edge', [(HAS, A, B, C1), (IS, C1, D)]),
    ('an edge of an edge', [(IS, A, B), (SAYS, C1, (IS, A, B)), (HAS, C1, D)]),
    ('a shared connector', [(IS, A, B), (IS, C1, D), (HAS, B, E)]),
    ('two rings', [(IS, A, B), (IS, B, A), (HAS, A, C1), (HAS, C1, B), (IS, C1, D)]),
    ('an edge of an edge of an edge', [(IS, A, B), (SAYS, C1, (IS, A, B)), (HAS, (IS, A, B), D), (SAYS, E, (HAS, (IS, A, B), D))]),
    ('a connector used as a vertex', [(IS, A, B), (HAS, IS, C1), (HAS, C1, D)]),
    ('edges of many vertices', [(HAS, A, B, C1, D, E, F, 'g/1', 'h/1'), (IS, 'h/1', 'i/1'), (HAS, 'i/1', 'j/1'), (HAS, F, 'k/1'), (IS, D, 'l/1', 'm/1', C1)]),
    ('edges that give sources', [(IS, A, B), ('src/gb', (IS, A, B), C1), ('src/gb', C1, D), (HAS, D, E), ('+/gb', D, F)]),
    ('an edge of a neighbouring edge', [(IS, A, B), (SAYS, A, (IS, A, B)), (HAS, (IS, A, B), D), (HAS, (SAYS, A, (IS, A, B)), E), (HAS, E, F)]),
    ('branches to both sides', [(IS, A, B), (IS, A, C1), (HAS, B, D), (HAS, C1, E), (HAS, D, F), (HAS, E, 'g/1')]),
    ('many edges at one vertex', [(IS, A, 'v%d/1' % i) for i in range(40)] + [(HAS, 'v%d/1' % i, 'w%d/1' % i) for i in range(40)]),
]
# a path longer than any depth one would ask for
PATH = [(IS, 'v%d/1' % i, 'v%d/1' % (i + 1)) for i in range(30)]


def run(prog, rep, body, edges, degrees, kind, label, extra='', **opts):
    o = dict(rec_depth=DEEP, unroll=400, max_steps=4000000)
    o.update(opts)
    return drive(prog, rep, MODEL % (edges, degrees, kind) + extra, body, label, **o)


# ------------------------------------------------------------------ Q02
def ego(edges, c, n):
    if n <= 0:
        return set()
    out = {e for e in edges if c in e}
    for v in {x for e in out for x in e[1:]}:
        out |= ego(edges, v, n - 1)
    return out


def q02(prog, rep, tier):
    rep.rules.append('over model stores (chains, rings, stars, long edges, edges of edges, shared connectors) the ego network computed for depths 0 to 3 is '
                     'exactly the bounded neighbourhood, and the search never goes deeper than the depth asked for')
    for batch in (False, True):
        cls = 'BatchHyperGraph' if batch else 'HyperGraph'
        for name, edges in GRAPHS:
            for c in [A, C1] + [e for e in edges if any(e in f for f in edges)][:1] + ['nowhere/1']:
                for n in range(4 if tier == 'quick' else 6):
                    if batch and (n != 2 or c != A):
                        continue
                    body = 'hg = facade()\n' + ('hg = BatchHyperGraph(hg, 10)\n' if batch else '') + 'return hg.ego(%r, %d)' % (c, n)
                    a = run(prog, rep, body, edges, {}, 'list' if n % 2 else 'set', '%s.ego at depth %d in %s' % (cls, n, name),
                            'from gb.hypergraph.batch_hypergraph import BatchHyperGraph\n' if batch else '')
                    check(a, rep, '%s.ego' % cls, 'the ego network of %s' % ('an edge' if isinstance(c, tuple) else c), name, ego(edges, c, n),
                          'depth %d' % n)
        # a long way, where what is reached depends on every step; no graph is deep enough for the depth not to matter
        for n in (-1, -3, 7, 10) if tier == 'quick' else (-1, -3, 6, 7, 8, 9, 10, 11):
            if batch and n != 7:
                continue
            body = 'hg = facade()\n' + ('hg = BatchHyperGraph(hg, 10)\n' if batch else '') + 'return hg.ego(%r, %d)' % ('v0/1', n)
            a = run(prog, rep, body, PATH, {}, 'set', '%s.ego at depth %d in a path' % (cls, n),
                    'from gb.hypergraph.batch_hypergraph import BatchHyperGraph\n' if batch else '')
            check(a, rep, '%s.ego' % cls, 'the ego network', 'a long path', ego(PATH, 'v0/1', n), 'depth %d' % n)
        # an answer does not depend on what was asked before
        for first, n1, second, n2 in ((A, 2, A, 2), (A, 1, A, 2), (A, 2, A, 1), (B, 2, A, 2), (A, 3, B, 1)):
            edges = GRAPHS[1][1]
            body = 'hg = facade()\n' + ('hg = BatchHyperGraph(hg, 10)\n' if batch else '') + 'hg.ego(%r, %d)\nreturn hg.ego(%r, %d)' % (first, n1, second, n2)
            a = run(prog, rep, body, edges, {}, 'set', '%s.ego after another one' % cls,
                    'from gb.hypergraph.batch_hypergraph import BatchHyperGraph\n' if batch else '')
            check(a, rep, '%s.ego' % cls, 'the ego network of %s, asked for after that of %s,' % (second, first), 'a chain', ego(edges, second, n2),
                  'depth %d' % n2)
        # nor on the store it was asked of before
        edges, other = GRAPHS[1][1], GRAPHS[3][1]
        a = run(prog, rep, 'global EDGES\nhg = facade()\nhg.ego(%r, 2)\nhg = facade()\nEDGES = %r\nreturn hg.ego(%r, 2)' % (A, other, A), edges, {}, 'set',
                'ego over another store')
        check(a, rep, '%s.ego' % cls, 'the ego network, asked for after that in another store,', 'a star', ego(other, A, 2), 'depth 2')


def check(a, rep, cons, what, name, want, how):
    r = outcome(a, rep)
    if r is None:
        return
    if r[0] == 'r':
        rep.bad('the search does not end', cons, 'in %s with %s it goes on after %d nested calls (%s)' % (name, how, DEEP, r[1]))
        return
    if r[0] == 'x':
        rep.bad('the query fails', cons, 'in %s with %s it raises %s' % (name, how, r[1]))
        return
    got = set(r[1]) if isinstance(r[1], (tuple, frozenset)) else None
    if got == want:
        rep.ok('model queries')
        return
    if got is None:
        rep.bad('result of the query', cons, 'in %s with %s it gives %r' % (name, how, r[1]))
        return
    miss, extra = sorted(want - got, key=repr), sorted(got - want, key=repr)
    rep.bad('result of the query', cons, 'in %s with %s %s %s' % (name, how, what, '; '.join(
        x for x in ('misses %r' % (miss[0],) if miss else '', 'has also %r' % (extra[0],) if extra else '') if x)))


# ------------------------------------------------------------------ Q01
def intersection(edges, degrees, seeds):
    """edges that connect vertices of the minimal walks from the first seed through all the seeds"""
    near = [e for s in seeds for e in ego(edges, s, 2) if all(degrees.get(v, 3) <= 250 for v in e[1:])]
    neigh = {}
    for e in near:
        for v in e:
            neigh.setdefault(v, set()).update(e[1:])
    found = set()

    def go(w):
        if all(s in w for s in seeds):
            found.add(w)
            return
        for u in neigh.get(w[-1], ()):
            if u not in w:
                go(w + (u,))
    go((seeds[0],))
    short = {}
    for w in found:
        for v in w:
            short[v] = min(short.get(v, len(w)), len(w))
    valid = {w for w in found if all(v in seeds or len(w) == short[v] for v in w)}
    verts = {v for w in valid for v in w}
    return {e for e in near if all(v in verts for v in e[1:])}


WEB = [
    ('a chain', [(IS, A, B), (HAS, B, C1), (IS, C1, D)], {}),
    ('a ring', [(IS, A, B), (IS, B, C1), (IS, C1, D), (IS, D, A)], {}),
    ('two ways', [(IS, A, B), (IS, B, C1), (HAS, A, D), (HAS, D, C1)], {}),
    ('a short and a long way', [(IS, A, B), (IS, B, C1), (HAS, A, D), (HAS, D, E), (HAS, E, C1)], {}),
    ('a long edge', [(HAS, A, B, C1), (IS, C1, D), (IS, A, D)], {}),
    ('an edge of an edge', [(IS, A, B), (SAYS, C1, (IS, A, B)), (HAS, C1, A)], {}),
    ('a hub', [(IS, A, B), (IS, B, C1), (HAS, A, D), (HAS, D, C1)], {B: 100000}),
    ('a hub connector', [(IS, A, B), (IS, B, C1), (HAS, A, D)], {IS: 100000}),
    ('a side branch', [(IS, A, B), (IS, B, C1), (HAS, B, D), (HAS, D, E)], {}),
    ('no connection', [(IS, A, B), (IS, C1, D)], {}),
    ('edges both ways', [(IS, A, B), (HAS, B, A), (IS, B, C1)], {}),
    ('vertices of middle degree', [(IS, A, B), (IS, B, C1), (HAS, A, D), (HAS, D, C1)], {A: 60, B: 250, C1: 26, D: 251}),
    ('a hub far in the edge', [(IS, A, B), (HAS, A, B, C1, D), (IS, B, C1), (IS, C1, D), (SAYS, A, C1, D, B)], {D: 1000}),
    ('a hub at the far end of a long edge', [(HAS, A, B, C1, 'x/1', 'y/1', D), (IS, A, B), (IS, B, C1)], {D: 1000}),
    ('an edge that leaves the walks late', [(IS, A, B), (IS, B, C1), (SAYS, A, B, C1, E), (HAS, A, B, C1, F, E)], {}),
    ('a way and a detour', [(IS, A, B), (IS, B, E), (IS, E, C1), (IS, B, F), (IS, F, E), (IS, A, D), (IS, D, C1)], {}),
    ('a ladder', [(IS, A, B), (IS, B, C1), (IS, C1, D), (HAS, A, E), (HAS, E, F), (HAS, F, D), (SAYS, B, E), (SAYS, C1, F)], {}),
]
MANY = 'v%d/1'
# larger stores, each with its seeds
WIDE = [
    ('a long chain of seeds', [(IS, MANY % i, MANY % (i + 1)) for i in range(9)], {}, [tuple(MANY % i for i in (0, 2, 4, 6, 8)),
                                                                                        tuple(MANY % i for i in (0, 9, 7, 5, 3, 1)),
                                                                                        tuple(MANY % i for i in (0, 1, 2, 3, 4, 5, 6, 9)),
                                                                                        (MANY % 0, MANY % 3), (MANY % 0, MANY % 4), (MANY % 0, MANY % 3, MANY % 7),
                                                                                        (MANY % 0, MANY % 4, MANY % 8)]),
    ('an edge beside two ways', [(IS, A, C1), (IS, C1, B), (HAS, A, D), (HAS, D, B), (SAYS, C1, D, E), (HAS, C1, D, C1, D, C1, F)], {}, [(A, B), (B, A)]),
    ('a chain with side branches', [(IS, MANY % i, MANY % (i + 1)) for i in range(7)] + [(HAS, MANY % i, 'w%d/1' % i) for i in range(7)], {},
     [(MANY % 0, MANY % 2, MANY % 4, MANY % 6), (MANY % 6, MANY % 4, MANY % 1)]),
    ('a ring of eight', [(IS, MANY % i, MANY % ((i + 1) % 8)) for i in range(8)], {}, [(MANY % 0, MANY % 3), (MANY % 0, MANY % 4), (MANY % 1, MANY % 3, MANY % 6)]),
    ('seeds on spokes', [(IS, 'hub/1', MANY % i) for i in range(6)], {}, [(MANY % 0, MANY % 1), ('hub/1', MANY % 2), (MANY % 0, MANY % 1, MANY % 2)]),
    ('many short ways', [(IS, A, MANY % i) for i in range(220)] + [(HAS, MANY % i, B) for i in range(220)], {}, [(A, B)]),
    ('a detour round a seed', [(IS, A, B), (IS, B, C1), (IS, C1, D), (IS, B, E), (IS, E, F), (IS, F, C1)], {}, [(A, D), (A, C1, D), (A, D, E), (A, B, D)]),
    ('nothing near a seed', [(IS, A, B)], {}, [('nowhere/1',), ('nowhere/1', A), (A, 'nowhere/1'), (A, A), (A, B, A), (B, B, A)]),
    ('only a hub near a seed', [(IS, A, B), (IS, C1, D)], {B: 251}, [(A,), (A, B), (A, C1), (C1, D)]),
    ('an edge without vertices', [(IS,), (IS, A, B), (HAS, IS, A)], {}, [(A, B), (IS, A), (IS,)]),
]


def q01(prog, rep, tier):
    rep.rules.append('over model stores the intersection of two or three seeds is exactly the set of edges around the seeds, without a vertex of very high '
                     'degree, that connect only vertices of the shortest simple walks from the first seed through all seeds')
    if 'gb.hypergraph.queries' not in prog.modules:
        rep.undec('no module gb.hypergraph.queries')
        return
    for name, edges, degrees in WEB:
        for seeds in ((A,), (A, B), (A, C1), (C1, A), (B, A), (A, D), (A, B, C1), (C1, B, A), (D, A, C1)):
            if tier == 'quick' and len(seeds) == 3 and seeds[0] == D:
                continue
            a = run(prog, rep, 'hg = facade()\nreturn q.intersect(hg, %r)' % (list(seeds),), edges, degrees, 'set',
                    'intersect of %s in %s' % (', '.join(seeds), name), 'import gb.hypergraph.queries as q\n')
            check(a, rep, 'queries.intersect', 'the intersection of %s' % ' and '.join(seeds), name, intersection(edges, degrees, seeds),
                  'seeds %s' % ', '.join(seeds))
    for name, edges, degrees, seedlists in WIDE:
        for seeds in seedlists:
            a = run(prog, rep, 'hg = facade()\nreturn q.intersect(hg, %r)' % (list(seeds),), edges, degrees, 'set',
                    'intersect of %s in %s' % (', '.join(seeds), name), 'import gb.hypergraph.queries as q\n', unroll=9000)
            check(a, rep, 'queries.intersect', 'the intersection of %s' % ' and '.join(seeds), name, intersection(edges, degrees, seeds),
                  'seeds %s' % ', '.join(seeds))
    # an answer does not depend on what was asked before
    for first, second in (((A, B), (A, C1)), ((A, C1), (A, B)), ((A, C1), (A, C1)), ((A, B, C1), (A,))):
        edges = WEB[2][1]
        a = run(prog, rep, 'hg = facade()\nq.intersect(hg, %r)\nreturn q.intersect(hg, %r)' % (list(first), list(second)), edges, {}, 'list',
                'intersect of %s after another one' % ', '.join(second), 'import gb.hypergraph.queries as q\n')
        check(a, rep, 'queries.intersect', 'the intersection of %s, asked for after another one,' % ' and '.join(second), 'two ways',
              intersection(edges, {}, second), 'seeds %s' % ', '.join(second))
    # the seeds stay as they are
    a = run(prog, rep, 'hg = facade()\ns = %r\nq.intersect(hg, s)\nreturn set(s), len(s)' % [A, C1], WEB[0][1], {}, 'set', 'the seeds after a query',
            'import gb.hypergraph.queries as q\n')
    r = outcome(a, rep)
    if r and r[0] == 'v' and r[1] != (frozenset([A, C1]), 2):
        rep.bad('the query changes the seeds it is given', 'queries.intersect', 'after the query the seeds are %r' % (r[1],))
    elif r:
        rep.ok('model queries')
