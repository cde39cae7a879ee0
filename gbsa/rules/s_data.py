"""S13: opening keeps data, destroy erases it, nothing else deletes foreign rows."""
from .storage import *
from .s_rows import Edges, key_term
from .s_index import selects

ERASERS = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.truncate', 'os.rename', 'os.replace', 'shutil.rmtree', 'shutil.move',
           'pathlib.Path.unlink'}


def always_true(st):
    """WHERE 1, WHERE 1=1, WHERE id=id"""
    if st.where is None:
        return True
    if st.where == '?':
        return None
    for l, o, r in st.where:
        if l == r and o in ('=', '>=', '<='):
            continue
        if l[0] == 'lit' and r and r[0] == 'lit':
            continue
        if r == ('null',) or o == 'isnotnull':
            continue
        return False
    return True


def destructive(st):
    if st.kind in ('DELETE', 'TRUNCATE', 'DROP', 'UPDATE'):
        return True
    if st.kind == 'INSERT' and 'replace' in st.flags:
        return True
    if st.kind == 'ALTER' and st.flags & {'drop', 'rename', 'modify'}:
        return True
    return False


def s13(prog, rep, tier):
    rep.rules.append('statements reachable while a store is opened only create or read; destroy passes an unconditional deletion of every written table on '
                     'every path; deletions elsewhere are keyed by equality on the identifier of the edge or of one of its index entries')
    opening(prog, rep)
    written = tables(prog, rep)
    erase(prog, rep, written)
    others(prog, rep)


def opening(prog, rep):
    for b in BACKENDS:
        for mode in ('plain', 'faults'):
            f = mode == 'faults'
            a = custom(prog, b, 'def drive(params):\n    mark("start")\n%s    sql = open_store(params)\n%s    mark("end")\n    return sql\n' % (
                '    faults(True)\n' if f else '', '    faults(False)\n' if f else ''), label='opening %s%s' % (BACKENDS[b][1], ' with failures' if f else ''))
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            for nd in a.by('exec', 'call'):
                cons = '%s: %s' % (a.label, place(nd.where))
                if nd.kind == 'exec':
                    st = a.stmt(nd)
                    if st.kind == '?':
                        rep.undec('statement %s at %s' % (st.text[:60], placel(nd.where)))
                    elif destructive(st):
                        rep.bad('opening changes stored data', cons, '%r is executed when a store is opened' % st.text[:100], path_of(nd.where))
                    elif st.kind == 'CREATE' and 'temp' in st.flags:
                        rep.bad('temporary table', cons, '%r creates a table that vanishes with the connection' % st.text[:100], path_of(nd.where))
                    else:
                        rep.ok('statements of opening')
                        rep.sample(st.text[:100])
                else:
                    f_ = nd.data['func']
                    if f_.op == 'ext' and f_.a[0] in ERASERS:
                        rep.bad('opening changes stored data', cons, '%s is called when a store is opened' % f_.a[0], path_of(nd.where))


def tables(prog, rep):
    out = {}
    for b in BACKENDS:
        out[b] = {}
        for op in WRITES:
            if op == 'destroy':
                continue
            a = analyse(prog, b, op)
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
            for nd in a.by('exec'):
                st = a.stmt(nd)
                if nd.id in a.section('start', 'end') and st.kind in ('INSERT', 'UPDATE') and st.table:
                    out[b].setdefault(st.table, nd)
    return out


def erase(prog, rep, written):
    for b in BACKENDS:
        a = analyse(prog, b, 'destroy')
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        if not written[b]:
            rep.undec('%s: no written table seen' % a.label)
        vague_ = []

        def step(nd, s):
            if nd.kind == 'mark' and nd.data['label'] == 'start':
                return [('in', frozenset())]
            if s[0] == 'out':
                return [s]
            if nd.kind == 'mark' and nd.data['label'] == 'end':
                for t in written[b]:
                    rep.ok('tables erased')
                    if t not in s[1] and not vague_:
                        rep.bad('destroy leaves rows', '%s: %s' % (a.label, t), 'there is a path on which the rows of %s, written at %s, survive' % (
                            t, placel(written[b][t].where)))
                return [('out', frozenset())]
            if nd.kind == 'exec':
                st = a.stmt(nd)
                if st.kind == '?':
                    vague_.append(st.text)
                elif st.kind == 'TRUNCATE':
                    return [('in', s[1] | {st.table})]
                elif st.kind == 'DELETE':
                    al = always_true(st)
                    if al is None:
                        vague_.append(st.text)
                    elif al and 'limit' not in st.flags:
                        return [('in', s[1] | {st.table})]
                elif st.kind == 'DROP':
                    # only complete if the table is made again
                    return [('in', s[1] | {st.table + '!'})]
                elif st.kind == 'CREATE' and st.table + '!' in s[1]:
                    return [('in', (s[1] - {st.table + '!'}) | {st.table})]
            return [s]
        a.flow([('out', frozenset())], step)
        for v in vague_:
            rep.undec('statement %s' % v[:80])


def others(prog, rep):
    for b in BACKENDS:
        for op in OPS:
            if op == 'destroy':
                continue
            a = analyse(prog, b, op)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            ed = Edges(a) if op in WRITES else None
            sec = a.section('start', 'end')
            for nd in a.by('exec'):
                if nd.id not in sec:
                    continue
                st = a.stmt(nd)
                cons = '%s: %s' % (a.label, place(nd.where))
                if st.kind in ('TRUNCATE', 'DROP') or st.kind == 'ALTER' and st.flags & {'drop', 'rename', 'modify'}:
                    rep.bad('rows of other edges deleted', cons, '%r erases a whole table' % st.text[:80], path_of(nd.where))
                    continue
                if st.kind != 'DELETE':
                    rep.ok('statements')
                    continue
                if op not in ('remove', 'remove_two', 'remove_many'):
                    rep.bad('rows deleted', cons, '%r deletes although nothing was asked to be removed' % st.text[:80], path_of(nd.where))
                    continue
                if always_true(st):
                    rep.bad('rows of other edges deleted', cons, '%r has no key' % st.text[:80], path_of(nd.where))
                    continue
                k = key_term(a, nd)
                if k is False:
                    if st.where != '?' and st.where and all(l == ('col', 'id') for l, o, r in st.where) and any(o != '=' for l, o, r in st.where) \
                            and all(a.bind(nd, r) is not None for l, o, r in st.where):
                        rep.bad('rows of other edges deleted', cons, '%r reaches other rows than the one named' % st.text[:80], path_of(nd.where))
                    elif st.where not in (None, '?') and not any(l == ('col', 'id') for l, o, r in st.where):
                        rep.bad('rows of other edges deleted', cons, '%r is not keyed by an identifier' % st.text[:80], path_of(nd.where))
                    else:
                        rep.undec('key of %s' % st.text[:80])
                    continue
                t = plain(k)
                mine = [e for e, _ in ed.edges if has(t, e)]
                if not mine:
                    if not any(x.op in ('param', 'rows') for x in walk(t)):
                        rep.ok('deletions')     # text without any element: not a stored identifier
                        continue
                    if vague(t):
                        rep.undec('key %s' % show(t)[:80])
                    else:
                        rep.bad('rows of other edges deleted', cons, 'the row %s is deleted' % show(t)[:100], path_of(nd.where))
                    continue
                if st.table == 'vertices':
                    c = ed.classify(k)
                    if c[0] == 'edge':
                        rep.ok('deletions')
                    elif c[0] in ('elem', 'pos'):
                        # the row of an element belongs to other edges unless none is left (S08)
                        rep.ok('deletions of elements')
                    else:
                        rep.bad('rows of other edges deleted', cons, 'the vertex %s is deleted' % show(t)[:100], path_of(nd.where))
                else:
                    rep.ok('deletions')
