"""Drivers that give the hypergraph classes a stand-in backend whose every call is an event."""
from .storage import *

STUB = '''
import gb.hypergraph.edge as ed
from gb.hypergraph.hypergraph import HyperGraph


class Store(object):
    def __init__(self, ext):
        self.ext = ext

    def exists(self, vertex):
        return self.ext.exists(vertex)

    def add(self, edges, timestamp=-1):
        return self.ext.add(edges, timestamp)

    def remove(self, edges):
        return self.ext.remove(edges)

    def pattern2edges(self, pattern):
        return self.ext.pattern2edges(pattern)

    def star(self, center):
        return self.ext.star(center)

    def symbols_with_root(self, root):
        return self.ext.symbols_with_root(root)

    def destroy(self):
        return self.ext.destroy()

    def degree(self, vertex):
        return self.ext.degree(vertex)

    def timestamp(self, vertex):
        return self.ext.timestamp(vertex)

    def batch_exec(self, funs):
        self.ext.batch_begin()
        for f in funs:
            f(self)
        self.ext.batch_end()

    def f_all(self, f):
        return self.ext.f_all(f)


def facade(ext):
    hg = HyperGraph({'backend': 'null'})
    hg.backend = Store(ext)
    return hg
'''

BATCH = '''
from gb.hypergraph.batch_hypergraph import BatchHyperGraph


def buffered(ext, size):
    return BatchHyperGraph(facade(ext), size)
'''

EXT = param('ext')


def fdrive(prog, body, params='', label='', batch=False, **opts):
    """driver function over the facade (or the buffered hypergraph); store calls are events on EXT"""
    src = STUB + (BATCH if batch else '') + '\n\ndef drive(ext%s):\n' % (', ' + params if params else '')
    src += '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n'
    o = dict(opaque=roles, objects=(EXT,))
    o.update(opts)
    a = An(prog, src, 'drive', label=label, **o)
    return a


ATOMS = ('source', 's2', 'x', 'y')


def is_edge(t):
    """an edge of the drivers: a tuple, a parameter that is not an atom, an element of a collection of edges"""
    if t.op == 'tuple':
        return True
    if t.op == 'param':
        return t.a[0] not in ATOMS and t.a[0] not in COLLS
    if t.op == 'item':
        return t.a[0].op == 'param' and t.a[0].a[0] in COLLS
    return False


COLLS = ('edges', 'lst')


def is_several(t):
    """what the one-or-several test answers for a value of the drivers: True | False | None"""
    while t.op in ('uniq', 'sorted', 'reversed'):
        t = t.a[0]
    if t.op == 'param':
        return t.a[0] in COLLS
    if t.op == 'item':
        return False if is_edge(t) else None
    if t.op == 'tuple':
        r = True
        for g in t.a[0]:
            if g.op == 'one':
                vals = [g.a[0]]
            elif g.op == 'spread':
                if is_several(g.a[0]) is not True:
                    return None
                continue
            else:
                vals = [y.a[0] if y.op == 'one' else None for _f, segs in g.a[2] for y in segs]
            for v in vals:
                if v is None:
                    return None
                if not is_edge(v):
                    if v.op in ('const', 'param', 'str'):
                        r = False
                    else:
                        return None
        return r
    return None


def roles(fi):
    """the one-or-several test answers by the role the drivers give a value"""
    if fi.mod.name == 'gb.hypergraph.edge' and fi.qual == 'is_edge_collection':
        def ans(eng, s, fr, n, args):
            r = is_several(args[0]) if args else None
            return C(r) if r is not None else mk('b', mk('pred', 'is_edge_collection', args), True)
        return ans
    return lenient(fi)


def single(prog, *names):
    """driver lines: the named parameters are one edge each"""
    if has_def(prog, 'gb.hypergraph.edge', 'is_edge_collection'):
        return '\n'.join('assume(not ed.is_edge_collection(%s))' % n for n in names)
    return 'pass'


def several(prog, name):
    if has_def(prog, 'gb.hypergraph.edge', 'is_edge_collection'):
        return 'assume(ed.is_edge_collection(%s))' % name
    return 'pass'


def store_calls(a):
    return calls_on(a, EXT)


def ret_of(t):
    """(method, args) if t is the result of a call on the stand-in"""
    if t.op == 'ret' and t.a[0].op in ('m', 'attr') and t.a[0].a[0] is EXT:
        return t.a[0].a[1], t.a[1]
    return None
