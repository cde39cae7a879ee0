"""Driver functions over the SQL storage layer, and their analyses."""
import ast

from ..core import *
from ..terms import *

BACKENDS = {'sqlite': ('gb.hypergraph.sqlite', 'SQLite', '?'), 'mysql': ('gb.hypergraph.mysql', 'MySQL', '%s')}

HEAD = '''
from %(mod)s import %(cls)s
import gb.hypergraph.edge as ed


def wf(edge):
    %(single)s
    assume(all(x is not None for x in edge))
    assume(edge)


def open_store(params):
    return %(cls)s(params)


def several(edges):
    %(coll)s
    pass
'''

OPS = {
    'add': ('edge, ts', 'wf(edge)', 'r = sql.add(edge, ts)'),
    'add_default': ('edge', 'wf(edge)', 'r = sql.add(edge)'),
    'add_two': ('e1, e2, ts', 'wf1(e1); wf1(e2); several([e1, e2])', 'r = sql.add([e1, e2], ts)'),
    'add_many': ('edges, ts', 'several(edges); each_wf(edges)', 'r = sql.add(edges, ts)'),
    'remove': ('edge', 'wf(edge)', 'r = sql.remove(edge)'),
    'remove_two': ('e1, e2', 'wf1(e1); wf1(e2); several([e1, e2])', 'r = sql.remove([e1, e2])'),
    'remove_many': ('edges', 'several(edges); each_wf(edges)', 'r = sql.remove(edges)'),
    'exists': ('edge', 'wf1(edge)', 'r = sql.exists(edge)'),
    'star': ('center', '', 'r = sql.star(center)'),
    'pattern': ('pattern', 'assume(any(x is not None for x in pattern))', 'r = sql.pattern2edges(pattern)'),
    'pattern_any': ('pattern', '', 'r = sql.pattern2edges(pattern)'),
    'pattern_wild': ('pattern', 'assume(all(x is None for x in pattern))', 'r = sql.pattern2edges(pattern)'),
    'root': ('root', '', 'r = sql.symbols_with_root(root)'),
    'degree': ('vertex', '', 'r = sql.degree(vertex)'),
    'timestamp': ('vertex', '', 'r = sql.timestamp(vertex)'),
    'f_all': ('f', '', 'r = None\n    for x in sql.f_all(f):\n        mark("item", x)'),
    'destroy': ('', '', 'r = sql.destroy()'),
    'batch': ('f, g', '', 'r = sql.batch_exec((f, g))'),
}
READS = ('exists', 'star', 'pattern_any', 'root', 'degree', 'timestamp', 'f_all')
WRITES = ('add', 'add_default', 'add_two', 'add_many', 'remove', 'remove_two', 'remove_many', 'destroy')

WF1 = '''

def wf1(edge):
    assume(all(x is not None for x in edge))
    assume(edge)


def each_wf(edges):
    for e in edges:
        assume(all(x is not None for x in e))
        assume(e)
'''


def has_def(prog, mod, name):
    m = prog.modules.get(mod)
    return m is not None and name in m.defs


def head(prog, backend):
    mod, cls, _ = BACKENDS[backend]
    iec = has_def(prog, 'gb.hypergraph.edge', 'is_edge_collection')
    return HEAD % {'mod': mod, 'cls': cls,
                   'single': 'assume(not ed.is_edge_collection(edge))' if iec else 'pass',
                   'coll': 'assume(ed.is_edge_collection(edges))' if iec else 'pass'} + WF1


def op_src(prog, backend, op, mode='plain'):
    """driver source calling one operation.  mode: plain | faults | inbatch | nested | afterfail"""
    params, pre, call = OPS[op]
    out = head(prog, backend)
    ps = 'params' + (', ' + params if params else '')
    out += '\n\ndef drive(%s):\n    sql = open_store(params)\n    %s\n' % (ps, pre or 'pass')
    if mode == 'plain':
        out += '    mark("start")\n    %s\n    mark("end", r)\n    return r\n' % call
    elif mode == 'faults':
        out += '    mark("start")\n    faults(True)\n    %s\n    faults(False)\n    mark("end", r)\n    return r\n' % call
    elif mode == 'inbatch':
        body = call.replace('\n', '\n    ')
        out += ('    def body(sql):\n        mark("in")\n        %s\n        mark("out", r)\n'
                '    mark("start")\n    sql.batch_exec((body,))\n    mark("end")\n') % body
    return out


_cache = {}


def lenient(fi):
    """text conversion and reading of edges, and the one-or-several test, are not entered"""
    if fi.mod.name == 'gb.hypergraph.edge':
        if fi.qual == 'is_edge_collection':
            return 'bool'
        if fi.qual in ('edge2str', 'nodes2str', 'atom2str', 'str2edge', 'split_edge_str', 'str2atom', 'token_type'):
            return 'pure'
    return None


def analyse(prog, backend, op, mode='plain', **opts):
    key = (id(prog), backend, op, mode, tuple(sorted(opts.items())))
    if key not in _cache:
        o = dict(opaque=lenient)
        o.update(opts)
        a = An(prog, op_src(prog, backend, op, mode), 'drive', label='%s.%s%s' % (
            BACKENDS[backend][1], op, '' if mode == 'plain' else ' (%s)' % mode), **o)
        a.backend = backend
        a.op = op
        _cache[key] = a
    return _cache[key]


def custom(prog, backend, body, name='drive', label='', **opts):
    o = dict(opaque=lenient)
    o.update(opts)
    a = An(prog, head(prog, backend) + '\n\n' + body, name, label=label or name, **o)
    a.backend = backend
    a.op = None
    return a


def all_ops(prog, ops=None, backends=('sqlite', 'mysql'), modes=('plain',)):
    for b in backends:
        for op in (ops or OPS):
            for m in modes:
                yield analyse(prog, b, op, m)


def dml(st):
    return st.kind in ('INSERT', 'UPDATE', 'DELETE', 'TRUNCATE') or st.kind in ('DROP', 'ALTER', 'CREATE')
