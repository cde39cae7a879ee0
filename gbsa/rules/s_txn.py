"""S03 durability, S04 atomicity, S05 composition in batches and cursor release, S06 read-only queries.

A typestate per connection and cursor is propagated along the effect graph of
every operation: (writes pending, transaction open, writes already committed,
state of every cursor).
"""
from .storage import *

# pending writes, explicit transaction, committed writes, writes thrown away
CLEAN = (False, False, False, False)


def autocommit(nd):
    return nd.data.get('auto')


class Txn(object):
    def __init__(self, a):
        self.a = a
        self.events = []

    def step(self, nd, s):
        """s = (pending, intxn, committed, lost, auto)"""
        p, t, c, l, auto = s
        k = nd.kind
        if k == 'connect':
            return [(p, t, c, l, None)]
        if k == 'autocommit':
            v = nd.data['value']
            return [(p, t, c, l, bool(cv(v)) if is_c(v) else None)]
        if k == 'exec':
            st = self.a.stmt(nd)
            b = nd.data['dialect']
            auto = autocommit(nd)
            if st.kind in ('INSERT', 'UPDATE', 'DELETE') or st.kind == 'TRUNCATE' or (st.kind == '?' and getattr(st, 'head', '') in (
                    'INSERT', 'UPDATE', 'DELETE', 'REPLACE')):
                if b == 'sqlite':
                    if auto and not t:
                        return [(p, t, True, l, auto)]
                    return [(True, t, c, l, auto)]
                if auto and not t:
                    return [(p, t, True, l, auto)]
                return [(True, t, c, l, auto)]
            if st.kind == 'BEGIN':
                if b == 'mysql' and p:
                    return [(False, True, True, l, auto)]       # implicit commit
                return [(p, True, c, l, auto)]
            if st.kind == 'COMMIT':
                return [(False, False, c or p, l, auto)]
            if st.kind == 'ROLLBACK':
                return [(False, False, c, l or p, auto)]
            if st.kind in ('CREATE', 'ALTER', 'DROP', 'CREATE INDEX') and b == 'mysql' and p:
                return [(False, False, True, l, auto)]
            return [s]
        if k == 'begin':
            if p and self.a.backend == 'mysql':
                return [(False, True, True, l, auto)]
            return [(p, True, c, l, auto)]
        if k == 'commit':
            return [(False, False, c or p, l, auto)]
        if k == 'rollback':
            return [(False, False, c, l or p, auto)]
        if k == 'close_conn':
            return [(False, False, c, l or p, auto)]
        if k == 'mark' and nd.data['label'] == 'start':
            return [(False, t, False, False, auto)]
        return [s]


START = (False, False, False, False, None)


def s03(prog, rep, tier):
    rep.rules.append('on every normal path of a writing operation, no write is pending or rolled back when it returns')
    todo = [analyse(prog, b, op) for b in BACKENDS for op in WRITES + ('batch',)]
    todo += [analyse(prog, b, op, 'inbatch') for b in BACKENDS for op in WRITES]
    todo += [a for b in BACKENDS for a in facade_ops(prog, b)]
    todo += [batch_then(prog, b) for b in BACKENDS]
    for a in todo:
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        tx = Txn(a)
        before = a.flow([START], tx.step)
        nw = [n for n in a.by('exec') if a.stmt(n).kind in ('INSERT', 'UPDATE', 'DELETE')]
        for x in a.exits('r'):
            for s in before.get(x.id, ()):
                rep.ok('return paths (states)')
                if s[0]:
                    w = last_write(a, x, nw)
                    rep.bad('write not committed', '%s: %s' % (a.label, place(w)),
                            'the operation returns while a write is still uncommitted; the last is at %s' % placel(w), path_of(w))
                if s[3]:
                    w = [n for n in a.by('rollback', 'close_conn')]
                    ww = w[-1].where if w else ()
                    rep.bad('write rolled back', '%s: %s' % (a.label, place(ww)),
                            'the operation returns normally after its writes were rolled back', path_of(ww))
        rep.counts['write statements'] = rep.counts.get('write statements', 0) + len(nw)
        if not nw and a.op in WRITES and not a.label.endswith('(inbatch)'):
            rep.bad('operation writes nothing', a.label, '%s issues no write statement at all' % a.label)


def last_write(a, x, nw):
    r = [n for n in nw if x.id in a.reach([n.id])]
    return r[-1].where if r else ()


FACADE = {
    'add_belief': ('source, edge, ts', 'r = hg.add_belief(source, edge, ts)'),
    'remove_belief': ('source, edge', 'r = hg.remove_belief(source, edge)'),
    'remove_by_pattern': ('pattern', 'r = hg.remove_by_pattern(pattern)'),
}
_fac = {}


def facade_ops(prog, b):
    key = (id(prog), b)
    if key in _fac:
        return _fac[key]
    out = []
    mod, cls, _ = BACKENDS[b]
    if has_def(prog, 'gb.hypergraph.hypergraph', 'HyperGraph'):
        for name, (ps, call) in FACADE.items():
            m = [n for n in ast.walk(prog.modules['gb.hypergraph.hypergraph'].tree) if isinstance(n, ast.FunctionDef) and n.name == name]
            if not m:
                continue
            src = '''
from gb.hypergraph.hypergraph import HyperGraph
from %s import %s


def drive(params, %s):
    store = %s(params)
    hg = HyperGraph({'backend': 'null'})
    hg.backend = store
    mark("start")
    %s
    mark("end")
    return r
''' % (mod, cls, ps, cls, call)
            a = An(prog, src, 'drive', label='HyperGraph.%s on %s' % (name, cls), opaque=lenient, drop=True)
            a.backend = b
            a.op = name
            out.append(a)
    _fac[key] = out
    return out


def batch_then(prog, b):
    """a batch of two adds and an unknown callback, then an add outside"""
    return custom(prog, b, '''
def drive(params, edge, e2, ts, f):
    sql = open_store(params)
    wf(edge)
    def one(s):
        s.add(edge, ts)
    mark("start")
    sql.batch_exec((one, f))
    mark("end")
    return None
''', label='%s.batch of adds' % BACKENDS[b][1], drop=True)


def after_failure(prog, b, exc='ValueError'):
    return custom(prog, b, '''
def drive(params, edge, e2, ts, f):
    sql = open_store(params)
    wf1(edge)
    def bad(s):
        s.add(edge, ts)
        raise %(exc)s('x')
    try:
        sql.batch_exec((bad,))
    except %(exc)s:
        pass
    mark("start")
    sql.add(e2, ts)
    mark("end")
    return None
''' % {'exc': exc}, label='%s.add after a batch stopped by %s' % (BACKENDS[b][1], exc), drop=True)


def after_failed_add(prog, b):
    """an add stopped by an element that cannot be written, then another add"""
    return custom(prog, b, '''
def drive(params, edge, e2, ts, f):
    sql = open_store(params)
    mark("start")
    try:
        faults(True)
        sql.add(edge, ts)
        faults(False)
    except Exception:
        faults(False)
        mark("start")
        sql.add(e2, ts)
    mark("end")
    return None
''', label='%s.add after a failed add' % BACKENDS[b][1], callback_raises=True, drop=True)


def s04(prog, rep, tier):
    rep.rules.append('no write after a commit inside one operation; on every path that ends in an exception, no committed or pending write; '
                     'after a failed batch the next operation commits its own writes on usable cursors')
    ops = ('add', 'add_default', 'add_two', 'add_many', 'remove', 'remove_two', 'remove_many', 'batch')
    for b in BACKENDS:
        for op in ops:
            for a, kind in ((analyse(prog, b, op), 'one commit'), (analyse(prog, b, op, 'faults', callback_raises=True), 'failure')):
                atom(rep, a, kind)
        atom(rep, batch_then(prog, b), 'one commit')
        a = custom(prog, b, '''
def drive(params, edge, ts, f):
    sql = open_store(params)
    wf(edge)
    def one(s):
        s.add(edge, ts)
    mark("start")
    faults(True)
    sql.batch_exec((one, f, one))
    faults(False)
    mark("end")
    return None
''', label='%s.batch of adds (faults)' % BACKENDS[b][1], callback_raises=True, drop=True)
        atom(rep, a, 'failure')
        for a in [after_failure(prog, b, x) for x in ('ValueError', 'KeyboardInterrupt')] + [after_failed_add(prog, b)]:
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            before = a.flow([START], Txn(a).step)
            for x in a.exits('r'):
                for s in before.get(x.id, ()):
                    rep.ok('recovered states')
                    if s[0]:
                        rep.bad('store not usable after a failure', a.label, 'writes of the operation after the failed one are never committed')
            cursors(rep, a, 'store not usable after a failure', leaks=False)


def atom(rep, a, kind):
    rep.functions |= a.eng.analysed
    if a.imprecise:
        rep.undec('%s: %s' % (a.label, a.imprecise))
        return
    tx = Txn(a)
    before = a.flow([START], tx.step)
    sec = a.section('start', 'end')
    if kind == 'one commit':
        for i in sec:
            nd = a.nodes[i]
            if nd.kind == 'exec' and a.stmt(nd).kind in ('INSERT', 'UPDATE', 'DELETE'):
                for s in before.get(i, ()):
                    rep.ok('writes checked')
                    if s[2]:
                        rep.bad('written in more than one transaction', '%s: %s' % (a.label, place(nd.where)),
                                'the write at %s follows writes of the same call that were already committed' % placel(nd.where),
                                path_of(nd.where))
    else:
        for x in a.exits('raise'):
            for s in before.get(x.id, ()):
                rep.ok('failing paths (states)')
                src = [n for n in a.by('fault') if x.id in a.reach([n.id])]
                w = src[0].where if src else ()
                if s[2]:
                    rep.bad('part of a failed call is committed', '%s' % a.label,
                            'a failure leaves writes of the same call committed', path_of(w))
                elif s[0]:
                    rep.bad('failed call leaves pending writes', '%s' % a.label,
                            'the writes made before a failure are not rolled back and the next commit stores them', path_of(w))
        # swallowed failures: a normal return after a fault must not have written only a part
        for x in a.exits('r'):
            faults = [n for n in a.by('fault') if n.id in sec and x.id in a.reach([n.id])]
            for n in faults:
                rep.bad('failure swallowed', '%s: %s' % (a.label, place(n.where)),
                        'the failing statement or callback at %s does not fail the call' % placel(n.where), path_of(n.where))


# ------------------------------------------------------------------ cursors
def cursors(rep, a, rule, leaks=True, only_section=False):
    """typestate of every cursor: fo(open) fc(losed)"""
    sec = a.section('start', 'end') if only_section else None

    def step(nd, s):
        k = nd.kind
        d = dict(s)
        if k == 'open':
            if only_section and nd.id not in sec:
                d['setup', nd.data['cur']] = 'o'
                return [frozenset(d.items())]
            if leaks and d.get(nd.data['cur']) == 'o' and nd.loops:
                rep.bad('cursor left open', '%s: %s' % (a.label, place(nd.where)), 'a cursor opened in an earlier turn of a loop is never closed',
                        path_of(nd.where))
            d[nd.data['cur']] = 'o'
            return [frozenset(d.items())]
        if k == 'close':
            if d.get(nd.data['cur']) == 'c' and False:
                pass
            d[nd.data['cur']] = 'c'
            return [frozenset(d.items())]
        if k in ('exec', 'fetch'):
            if d.get(nd.data['cur']) == 'c':
                rep.bad(rule, '%s: %s' % (a.label, place(nd.where)), 'a closed cursor is used at %s' % placel(nd.where), path_of(nd.where))
            else:
                rep.ok('cursor uses')
            return [s]
        return [s]
    before = a.flow([frozenset()], step)
    if leaks:
        for x in a.exits('r'):
            for s in before.get(x.id, ()):
                for c, v in s:
                    if isinstance(c, T) and v == 'o':
                        opens = [n for n in a.by('open') if n.data['cur'] is c]
                        w = opens[0].where if opens else ()
                        rep.bad('cursor left open', '%s: %s' % (a.label, place(w)), 'the cursor opened at %s is still open when the operation returns'
                                % placel(w), path_of(w))
                    else:
                        rep.ok('cursors released')
    return before


PROBE = '''
def drive(params, %(ps)s, probe, pts, pf):
    sql = open_store(params)
    %(pre)s
    def body(sql):
        mark("in")
        %(call)s
        sql.degree(probe)
        sql.batch_exec((pf,))
        sql.add(probe, pts)
        mark("out")
    mark("start")
    sql.batch_exec((body,))
    mark("end")
    return None
'''


def s05(prog, rep, tier):
    rep.rules.append('cursor typestate: inside a batch no operation closes a cursor that was open before it or ends the transaction; '
                     'outside, every cursor is closed on every normal path; no statement on a cursor that is being iterated')
    ops = [o for o in OPS if o not in ('pattern', 'pattern_wild')]
    for b in BACKENDS:
        for op in ops:
            a = analyse(prog, b, op)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
            else:
                cursors(rep, a, 'closed cursor used')
                reused(rep, a)
            params, pre, call = OPS[op]
            a = custom(prog, b, PROBE % {'ps': params or 'unused', 'pre': pre or 'pass', 'call': call.replace('\n', '\n    ')},
                       label='%s.%s in a batch' % (BACKENDS[b][1], op), drop=True)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            inbatch(rep, a)
            reused(rep, a)
        for inner in ('add', 'exists', 'degree', 'remove', 'star'):
            params, pre, call = OPS[inner]
            for where in ('', 'batch'):
                body = '''
def loop(sql, f, %(ps)s):
    for x in sql.f_all(f):
        %(call)s


def drive(params, f, %(ps)s):
    sql = open_store(params)
    %(pre)s
    def body(s):
        loop(s, f, %(ps)s)
    mark("start")
    %(go)s
    mark("end")
    return None
''' % {'ps': params, 'pre': pre, 'call': call, 'go': 'sql.batch_exec((body,))' if where else 'body(sql)'}
                a = custom(prog, b, body, label='%s.%s while iterating over all vertices%s' % (BACKENDS[b][1], inner, ' in a batch' if where else ''), drop=True)
                rep.functions |= a.eng.analysed
                if a.imprecise:
                    rep.undec('%s: %s' % (a.label, a.imprecise))
                    continue
                cursors(rep, a, 'closed cursor used')
                reused(rep, a)


def inbatch(rep, a):
    ins = a.section('in', 'out')
    # state: cursors open before "in" that must stay open
    def step(nd, s):
        ph, cur = s
        d = dict(cur)
        k = nd.kind
        if k == 'mark' and nd.data['label'] == 'in':
            return [('in', frozenset((c, 'B') for c, v in d.items() if v != 'c'))]
        if k == 'mark' and nd.data['label'] == 'out':
            return [('out', cur)]
        if k == 'open':
            d[nd.data['cur']] = 'o'
            return [(ph, frozenset(d.items()))]
        if k == 'close':
            c = nd.data['cur']
            if ph == 'in' and d.get(c) == 'B' and not only_fails(a, nd):
                rep.bad('batch cursor closed', '%s: %s' % (a.label, place(nd.where)),
                        'the operation closes the cursor the batch is using, at %s' % placel(nd.where), path_of(nd.where))
            d[c] = 'c'
            return [(ph, frozenset(d.items()))]
        if k in ('exec', 'fetch') and d.get(nd.data['cur']) == 'c' and not only_fails(a, nd):
            rep.bad('closed cursor used', '%s: %s' % (a.label, place(nd.where)), 'a closed cursor is used at %s' % placel(nd.where), path_of(nd.where))
        if ph == 'in':
            rep.ok('events inside a batch')
            early = k in ('commit', 'rollback', 'close_conn', 'begin') or \
                k == 'exec' and a.stmt(nd).kind in ('COMMIT', 'ROLLBACK', 'BEGIN') or \
                k == 'exec' and a.backend == 'mysql' and a.stmt(nd).kind in ('CREATE', 'ALTER', 'DROP', 'TRUNCATE')
            if early:
                # a failing operation may roll the batch back
                if not only_fails(a, nd):
                    rep.bad('batch ended early', '%s: %s' % (a.label, place(nd.where)),
                            'the operation ends the transaction of the batch at %s' % placel(nd.where), path_of(nd.where))
        return [s]
    before = a.flow([('pre', frozenset())], step)
    for x in a.exits('r'):
        for ph, s in before.get(x.id, ()):
            for c, v in s:
                if v in ('o', 'B'):
                    opens = [n for n in a.by('open') if n.data['cur'] is c]
                    w = opens[0].where if opens else ()
                    rep.bad('cursor left open', '%s: %s' % (a.label, place(w)), 'the cursor opened at %s is still open when the batch returns'
                            % placel(w), path_of(w))
                else:
                    rep.ok('cursors released')


def only_fails(a, nd):
    """every continuation of nd is an exception"""
    return not any(a.nodes[i].kind == 'mark' and a.nodes[i].data['label'] in ('out', 'end') or
                   a.nodes[i].kind == 'exit' and a.nodes[i].data['kind'] == 'r' for i in a.reach([nd.id]))


def reused(rep, a):
    """a statement executed on a cursor whose rows are being iterated"""
    loops = {}
    for n in a.by('loop'):
        c = n.data['coll']
        if c.op in ('rows', 'anyrows'):
            loops[n.data['L']] = (n, c)
    curs = {}
    for n in a.by('exec'):
        curs.setdefault(n.data['rows'], set()).add(n.data['cur'])
    for n in a.by('exec', 'close'):
        for L in n.loops:
            if L in loops:
                hd, rows = loops[L]
                rep.ok('statements during iteration')
                cs = {rows.a[0]} if rows.op == 'anyrows' else curs.get(rows, ())
                if n.data['cur'] in cs and hd.id in a.reach(n.succ, lambda x: L not in x.loops or x is hd):
                    rep.bad('iterated cursor reused', '%s: %s' % (a.label, place(n.where)),
                            'the cursor being iterated at %s is used for another statement at %s' % (placel(hd.where), placel(n.where)),
                            path_of(n.where))


# ------------------------------------------------------------------ read-only queries
def s06(prog, rep, tier):
    rep.rules.append('effects of every query: only SELECT statements, no commit, rollback or schema change')
    todo = [analyse(prog, b, op) for b in BACKENDS for op in READS]
    facade_reads(prog, rep)
    for a in todo:
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
        sec = a.section('start', 'end')
        for i in sec:
            nd = a.nodes[i]
            if nd.kind == 'exec':
                rep.ok('statements of queries')
                st = a.stmt(nd)
                if st.kind in ('SELECT', 'SETTING', 'SAVEPOINT'):
                    continue
                if st.kind == 'BEGIN' and (a.op in ('f_all',) or True) and not any(
                        a.nodes[j].kind == 'exec' and dml(a.stmt(a.nodes[j])) for j in sec):
                    continue
                if st.kind == '?' and not getattr(st, 'head', ''):
                    rep.undec('statement at %s' % placel(nd.where))
                    continue
                rep.bad('query writes', '%s: %s' % (a.label, place(nd.where)), 'the query executes %r at %s' % (st.text[:80], placel(nd.where)),
                        path_of(nd.where))
            elif nd.kind in ('commit', 'rollback'):
                rep.bad('query commits', '%s: %s' % (a.label, place(nd.where)), 'the query ends a transaction at %s' % placel(nd.where), path_of(nd.where))
            elif nd.kind == 'call' and a.op == 'facade':
                rep.undec('unknown call in %s' % a.label)
            else:
                rep.ok('events of queries')


_fr = {}
QUERY_SRC = '''
from gb.hypergraph.hypergraph import HyperGraph
from %(mod)s import %(cls)s
%(imp)s


def drive(params, %(ps)s):
    store = %(cls)s(params)
    hg = HyperGraph({'backend': 'null'})
    hg.backend = store
    mark("start")
    %(call)s
    mark("end")
    return r
'''
FREADS = [('exists', 'e'), ('pattern2edges', 'p'), ('star', 'c'), ('symbols_with_root', 'root'), ('degree', 'v'), ('timestamp', 'v'),
          ('sources', 'e'), ('is_belief', 'e'), ('ego', 'v, d'), ('f_all', 'f'), ('all', ''), ('all_attributes', '')]
READ_NAMES = {'exists', 'pattern2edges', 'star', 'symbols_with_root', 'degree', 'timestamp', 'sources', 'is_belief', 'ego', 'f_all',
              'all', 'all_attributes', 'has_str'}


def facade_reads(prog, rep):
    """operations the queries of the facade and the query module ask of an unknown store"""
    todo = []
    hm = prog.modules.get('gb.hypergraph.hypergraph')
    if hm is not None:
        ms = {n.name for n in ast.walk(hm.tree) if isinstance(n, ast.FunctionDef)}
        for name, ps in FREADS:
            if name in ms:
                it = name in ('f_all', 'all', 'all_attributes')
                todo.append(('HyperGraph.' + name, ps, """
from gb.hypergraph.hypergraph import HyperGraph


def drive(store, %s):
    hg = HyperGraph({'backend': 'null'})
    hg.backend = store
    mark("start")
    r = hg.%s(%s)
    %s
    mark("end")
    return r
""" % (ps or 'unused', name, ps, 'for x in r: mark("item")' if it else 'pass')))
    qm = prog.modules.get('gb.hypergraph.queries')
    if qm is not None and 'intersect' in qm.defs:
        todo.append(('queries.intersect', '', """
import gb.hypergraph.queries as q


def drive(store, seeds):
    mark("start")
    r = q.intersect(store, seeds)
    mark("end")
    return r
"""))
    touching = store_touching(prog, 'gb.hypergraph.queries', 'intersect')

    def oq(fi):
        if fi.mod.name == 'gb.hypergraph.queries' and fi.cls is None and '.' not in fi.qual and fi.qual not in touching:
            return 'pure'
        return lenient(fi)
    for label, ps, src in todo:
        a = An(prog, src, 'drive', label=label, opaque=oq, drop=True)
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
        for i in a.section('start', 'end'):
            nd = a.nodes[i]
            if nd.kind == 'exec':
                st = a.stmt(nd)
                if st.kind != 'SELECT':
                    rep.bad('query writes', '%s: %s' % (label, place(nd.where)), 'the query executes %r' % st.text[:80], path_of(nd.where))
            if nd.kind != 'call':
                continue
            f = nd.data['func']
            if f.op in ('attr', 'meth') and f.a[0].op == 'param' and f.a[0].a[0] == 'store':
                rep.ok('store operations of facade queries')
                if f.a[1] not in READ_NAMES:
                    if f.a[1] in ('add', 'remove', 'destroy', 'batch_exec', 'add_belief', 'remove_belief', 'remove_by_pattern', 'flush'):
                        rep.bad('query writes', '%s: %s' % (label, place(nd.where)), 'the query calls %s of the store at %s' % (
                            f.a[1], placel(nd.where)), path_of(nd.where))
                    else:
                        rep.undec('%s calls %s' % (label, f.a[1]))


def store_touching(prog, mod, entry):
    """functions of a module that receive the store given to `entry` as its first argument (by parameter position)"""
    m = prog.modules.get(mod)
    defs = {}
    if m is None:
        return set()
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef):
            defs[n.name] = n
    tainted = {}
    work = []

    def add(f, i):
        if (f, i) not in tainted:
            tainted[f, i] = True
            work.append((f, i))
    add(entry, 0)
    while work:
        f, i = work.pop()
        fn = defs.get(f)
        if fn is None or i >= len(fn.args.args):
            continue
        names = {fn.args.args[i].arg}
        for _ in range(3):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        used = set()
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in defs:
                for j, x in enumerate(c.args):
                    if any(isinstance(y, ast.Name) and y.id in names and not is_attr_base(x, y) for y in ast.walk(x)):
                        add(c.func.id, j)
                for k in c.keywords:
                    if any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(k.value)):
                        ps = [p.arg for p in defs[c.func.id].args.args]
                        if k.arg in ps:
                            add(c.func.id, ps.index(k.arg))
    return {f for f, i in tainted} | {n for n in defs if any(isinstance(x, ast.FunctionDef) for x in defs[n].body)}


def is_attr_base(x, y):
    """y occurs in x only as the object a method is called on"""
    for n in ast.walk(x):
        if isinstance(n, ast.Attribute) and n.value is y:
            return True
    return False
