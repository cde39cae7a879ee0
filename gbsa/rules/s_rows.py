"""S08 degrees, S09 guards, S10 timestamps: typestate of one vertex row per turn of the loop over an edge's elements."""
from .storage import *
from .s_sql import schema
from .facade import fdrive, single, store_calls


class Edges(object):
    """the edges an analysed operation is asked to handle, and classification of row keys"""

    def __init__(self, a):
        self.a = a
        self.loops = {}
        for n in a.by('loop'):
            self.loops.setdefault(n.data['L'], n.data['coll'])
        self.edges = []
        if a.op in ('add_two', 'remove_two'):
            self.edges = [(param('e1'), None), (param('e2'), None)]
        elif a.op in ('add_many', 'remove_many'):
            p = param('edges')
            for L, c in self.loops.items():
                if base_coll(c) is p:
                    e = item(p, mk('it', L))
                    if any(has(n.data['binds'], e) for n in a.by('exec') if n.data['binds'] is not None):
                        self.edges.append((e, L))
        else:
            self.edges = [(param('edge'), None)]

    def classify(self, t):
        """('edge', E) | ('elem', E, L) | ('odd', text) | ('other',) for the key t of a vertices row"""
        t = plain(t)
        x = e2s_arg(t)
        if x is None:
            for e, _ in self.edges:
                if has(t, e) and not vague(t):
                    return ('odd', 'key %s is not the text of an element' % show(t)[:120])
            return ('other',)
        for e, _ in self.edges:
            if x is e:
                return ('edge', e)
        if x.op == 'item':
            for e, _ in self.edges:
                if x.a[0] is e:
                    if x.a[1].op == 'it':
                        c = self.loops.get(x.a[1].a[0])
                        if c is not None and base_coll(c) is e:
                            return ('elem', e, x.a[1].a[0])
                    if x.a[1].op == 'const':
                        return ('pos', e, x.a[1])
                    if not vague(x):
                        c = [self.loops.get(y.a[0]) for y in walk(x.a[1]) if y.op == 'it']
                        return ('odd', 'element %s in a loop over %s' % (show(x)[:80], ', '.join(show(y)[:80] for y in c if y is not None)))
            for e, _ in self.edges:
                if has(x.a[0], e) and x.a[0].op in ('uniq', 'slice', 'suffix') and not vague(x):
                    return ('odd', 'element %s of %s' % (show(x)[:60], show(x.a[0])[:80]))
        for e, _ in self.edges:
            if has(x, e) and not vague(x):
                return ('odd', 'key of %s' % show(x)[:100])
        return ('other',)


def key_term(a, nd):
    """term the statement's row is keyed by; None: all rows; False: not understood"""
    st = a.stmt(nd)
    if st.kind == 'INSERT':
        if 'id' in st.cols:
            e = st.vals[st.cols.index('id')] if st.cols.index('id') < len(st.vals) else None
            b = a.bind(nd, e)
            return b if b is not None else False
        return False
    if st.where is None:
        return None
    if st.where == '?':
        return False
    ids = [(o, r) for l, o, r in st.where if l == ('col', 'id')]
    if len(ids) == 1 and ids[0][0] == '=':
        b = a.bind(nd, ids[0][1])
        if b is not None:
            return b
        return False
    return False


def further(a, nd):
    """conditions of the statement on its row, besides the key: [] | list | '?'"""
    st = a.stmt(nd)
    if st.kind == 'INSERT' or st.where is None:
        return []
    if st.where == '?':
        return '?'
    return [(l, o, r) for l, o, r in st.where if l != ('col', 'id')]


def guard_of(a, E, facts):
    """'new' | 'old' | None: what the facts say about E being stored; second: reason when the test is not exact"""
    res = None
    for c, pol in facts.items():
        if c.op not in ('some', 'in', 'isnone'):
            continue
        rs = [x for x in walk(c) if x.op == 'rows']
        if not rs:
            continue
        ok = False
        for r in rs:
            for n in a.execs_of(r):
                st = a.stmt(n)
                if st.kind == 'SELECT' and st.table == 'perms' and n.data['binds'] is not None and has(n.data['binds'], E):
                    ok = True
        if not ok:
            continue
        if c.op == 'in' and c.a[0] is not E:
            continue
        if c.op == 'isnone':
            pol = not pol
        raw = c.a[0] if c.op == 'some' else None
        if raw is not None and raw.op == 'rows':
            n = a.execs_of(raw)[0]
            st = a.stmt(n)
            exact = st.where not in (None, '?') and any(l == ('col', 'id') and o == '=' for l, o, r in st.where)
            if not exact:
                continue
        res = 'old' if pol else 'new'
    return res


def execs_of(self, r):
    if not hasattr(self, '_rx'):
        self._rx = {}
        for n in self.nodes:
            if n.kind == 'exec':
                self._rx.setdefault(n.data['rows'], []).append(n)
    return self._rx.get(r, [])


An.execs_of = execs_of

# row: (present, degree, timestamp, zero)  degree: ('i', d) | ('c', n) | ('?',)   zero: None | True | False
P0 = ('P', ('i', 0), 'keep', None)
A0 = ('A', None, None, None)


class Rows(object):
    def __init__(self, a, ed, rep, least=0):
        self.a = a
        self.ed = ed
        self.rep = rep
        self.least = least      # least degree the row can have at the start

    def selected(self, nd, row, res):
        """whether a stored row satisfies the conditions besides the key: True | False | None"""
        cs = further(self.a, nd)
        if cs == '?':
            return None
        out = True
        for l, o, r in cs:
            v = self.value(nd, r, row, res, 'degree') if r is not None else ('?',)
            x = None
            if l == ('col', 'degree') and v[0] == 'c' and is_int(v[1]) and row[1]:
                k, d = cv(v[1]), row[1]
                if d[0] == 'c' and is_int(d[1]):
                    d = cv(d[1])
                    x = {'=': d == k, '!=': d != k, '<': d < k, '<=': d <= k, '>': d > k, '>=': d >= k}.get(o)
                elif d[0] == 'i':
                    lo = self.least + d[1]
                    if row[3] is not None and o in ('=', '!=') and k == 0:
                        x = row[3] is (o == '=')
                    elif o == '>' and lo > k or o == '>=' and lo >= k or o == '!=' and lo > k:
                        x = True
                    elif o == '<' and lo >= k or o == '<=' and lo > k or o == '=' and lo > k:
                        x = False
                    elif o in ('>', '<=') and k == 0 and lo >= 0 and row[3] is not None:
                        x = row[3] is (o == '<=')
            if x is False:
                return False
            if x is None:
                out = None
        return out

    def value(self, nd, e, row, res, col):
        if e[0] == 'lit':
            return ('c', C(e[1]))
        if e[0] == 'ph':
            t = self.a.bind(nd, e)
            if t is None:
                return ('?',)
            if is_int(t):
                return ('c', t)
            # value read from the same row
            base, k = t, 0
            if t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
                base, k = t.a[1][0][0], t.a[0]
            if base.op == 'item' and base.a[0].op == 'item' and base.a[0].a[0].op == 'rows':
                for r in res:
                    if r[1] == col and r[0] is base.a[0].a[0] and r[2] is not None and r[2][0] in ('i', 'c'):
                        if r[2][0] == 'i':
                            return ('i', r[2][1] + k)
                        return ('c', add(r[2][1], C(k)))
                return ('?',)
            return ('c', t)
        if e[0] == 'col' and e[1] == col:
            return row[1] if col == 'degree' else ('keep',)
        if e[0] == 'bin' and e[1] in ('+', '-') and e[2] == ('col', col) and row[0] == 'P':
            d = self.value(nd, e[3], row, res, col)
            if d[0] == 'c' and is_int(d[1]):
                k = cv(d[1]) * (1 if e[1] == '+' else -1)
                if row[1][0] == 'i':
                    return ('i', row[1][1] + k)
                if row[1][0] == 'c' and is_int(row[1][1]):
                    return ('c', C(cv(row[1][1]) + k))
        if e[0] == 'bin' and e[1] == '+' and e[3] == ('col', col):
            return self.value(nd, ('bin', '+', e[3], e[2]), row, res, col)
        return ('?',)

    def apply_sets(self, nd, sets, row, res):
        pres, deg, ts, zero = row
        nrow = row
        for c, e in sets:
            v = self.value(nd, e, row, res, c)
            if c == 'degree':
                nrow = (pres, v, nrow[2], None)
            elif c == 'timestamp':
                nrow = (pres, nrow[1], 'keep' if v[0] == 'keep' else v[1] if v[0] == 'c' else '?', nrow[3])
        return nrow

    def apply(self, nd, row, res):
        """[(row, res)] after statement nd on the row; None if it breaks a constraint"""
        st = self.a.stmt(nd)
        R = nd.data['rows']
        res = frozenset(r for r in res if r[0] is not R)
        pres = row[0]
        if pres == 'P' and further(self.a, nd):
            x = self.selected(nd, row, res)
            if x is not True:
                missed = (row, res | {(R, 'some' if st.kind == 'SELECT' else 'changed', False)})
                return [missed] if x is False else [missed] + self.hit(nd, row, res)
        return self.hit(nd, row, res)

    def hit(self, nd, row, res):
        st = self.a.stmt(nd)
        R = nd.data['rows']
        pres = row[0]
        if st.kind == 'SELECT':
            res = res | {(R, 'some', pres == 'P')}
            if pres == 'P' and len(st.cols) >= 1 and st.cols[0] == ('col', 'degree'):
                res = res | {(R, 'degree', row[1])}
            return [(row, res)]
        if st.kind == 'UPDATE':
            if pres == 'A':
                return [(row, res | {(R, 'changed', False)})]
            return [(self.apply_sets(nd, st.sets, row, res), res | {(R, 'changed', True)})]
        if st.kind == 'DELETE':
            return [(A0 if pres == 'A' else ('D', row[1], row[2], row[3]), res | {(R, 'changed', pres == 'P')})]
        if st.kind == 'INSERT':
            if pres in ('A', 'D'):
                deg, ts = ('c', C(0)), C(-1)
                for c, e in zip(st.cols, st.vals):
                    if c == 'degree':
                        deg = self.value(nd, e, row, res, c)
                    elif c == 'timestamp':
                        v = self.value(nd, e, row, res, c)
                        ts = v[1] if v[0] == 'c' else '?'
                return [(('P', deg, ts, None), res | {(R, 'changed', True)})]
            if st.conflict is not None:
                if not st.conflict:
                    return [(row, res | {(R, 'changed', False)})]
                sets = [(c, e) for c, e in st.conflict]
                return [(self.apply_sets(nd, sets, row, res), res | {(R, 'changed', True)})]
            if st.flags & {'orignore', 'ignore'}:
                return [(row, res | {(R, 'changed', False)})]
            if 'replace' in st.flags:
                return self.apply(nd, A0, res)
            return None
        return [(row, res)]

    def consistent(self, row, res, facts):
        """row refined by the facts, or None if they contradict"""
        if not res:
            return row
        for R, what, val in res:
            if what in ('some', 'changed'):
                f = facts.get(mk(what, R))
                if f is not None and f != val:
                    return None
                if what == 'some':
                    for c, p in facts.items():
                        if c.op == 'isnone' and c.a[0].op == 'item' and c.a[0].a[0] is R and p == val:
                            return None
        zero = row[3]
        for c, p in facts.items():
            if c.op == 'eq' and any(is_int(x) and cv(x) == 0 for x in c.a):
                x = [y for y in c.a if not is_int(y)]
                if x and x[0].op == 'item' and x[0].a[0].op == 'item':
                    R = x[0].a[0].a[0]
                    for r in res:
                        if r[0] is R and r[1] == 'degree' and r[2] == row[1]:
                            zero = p
            elif c.op == 'lt' and is_int(c.a[0]) and c.a[1].op == 'item' and c.a[1].a[0].op == 'item':
                R = c.a[1].a[0].a[0]
                for r in res:
                    if r[0] is R and r[1] == 'degree' and r[2] == row[1]:
                        if p and cv(c.a[0]) >= 0:
                            zero = False
                        elif not p and cv(c.a[0]) <= 0:
                            zero = True
            elif c.op == 'lt' and is_int(c.a[1]) and c.a[0].op == 'item' and c.a[0].a[0].op == 'item':
                R = c.a[0].a[0].a[0]
                for r in res:
                    if r[0] is R and r[1] == 'degree' and r[2] == row[1]:
                        if p and cv(c.a[1]) <= 1:
                            zero = True
                        elif not p and cv(c.a[1]) >= 1:
                            zero = False
        if zero and row[0] == 'P' and row[1] and row[1][0] == 'i' and self.least + row[1][1] > 0:
            return None
        if zero is not row[3]:
            row = row[:3] + (zero,)
        return row


def vertex_events(a):
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if st.table == 'vertices' and st.kind in ('INSERT', 'UPDATE', 'DELETE', 'SELECT', 'TRUNCATE'):
            yield nd, st


def is_write(a, nd):
    return nd.kind == 'exec' and a.stmt(nd).kind in ('INSERT', 'UPDATE', 'DELETE', 'TRUNCATE')


def element_rows(a, rep, ed, E, L0, adding, check):
    """one turn of the loop over E's elements; check(kind, start row, end row, where)"""
    Ls = set()
    for nd, st in vertex_events(a):
        k = key_term(a, nd)
        if isinstance(k, T):
            c = ed.classify(k)
            if c[0] == 'elem' and c[1] is E:
                Ls.add(c[2])
    for L in Ls:
        one_loop(a, rep, ed, E, L, L0, check)
    return Ls


def one_loop(a, rep, ed, E, L, L0, check):
    rw = Rows(a, ed, rep, 0 if a.op in ADDS else 1)
    heads = {n.id for n in a.by('loop') if n.data['L'] == L}
    sec = a.section('start', 'end')

    def touched(nd):
        if nd.kind != 'exec':
            return None
        st = a.stmt(nd)
        if st.table != 'vertices':
            return None
        k = key_term(a, nd)
        if k is None:
            return 'all'
        if k is False:
            return None
        c = ed.classify(k)
        if c[0] == 'elem' and c[1] is E and c[2] == L:
            return 'row'
        return None

    def step(nd, s):
        # s: ('out',) | ('in', start, row, res, last) | ('left', ...)
        if nd.id not in sec:
            return [s]
        if nd.id in heads:
            if s[0] == 'in':
                check('turn', s[1], s[2], s[4])
            return [('out',)]
        inside = L in nd.loops
        if s[0] == 'out':
            if not inside:
                return [s]
            outs = []
            for r in (P0, A0):
                outs += step(nd, ('in', r[0], r, frozenset(), None))
            return outs
        if s[0] == 'in':
            if not inside:
                if nd.kind == 'exit' and nd.data['kind'] == 'raise' or only_fails2(a, nd):
                    return [('out',)]
                check('left', s[1], s[2], nd.where or (s[4] or ()))
                return [('out',)]
            t = touched(nd)
            if t:
                r = rw.apply(nd, s[2], s[3])
                if r is None:
                    check('constraint', s[1], s[2], nd.where)
                    return []
                return [('in', s[1], row, res, nd.where) for row, res in r]
        return [s]

    def filt(s, facts):
        if s[0] != 'in':
            return s
        row = rw.consistent(s[2], s[3], facts)
        if row is None:
            return None
        return s[:2] + (row,) + s[3:]
    a.flow([('out',)], step, filt)


_of = {}


def only_fails2(a, nd):
    k = (id(a), nd.id)
    if k not in _of:
        _of[k] = not any(a.nodes[i].kind == 'mark' and a.nodes[i].data['label'] == 'end' for i in a.reach([nd.id]))
    return _of[k]


def edge_row(a, rep, ed, E, L0, check):
    """the row of the edge itself over one call (or one turn of the loop over the edges)"""
    rw = Rows(a, ed, rep)
    sec = a.section('start', 'end')

    def step(nd, s):
        if nd.kind == 'mark' and nd.data['label'] == 'start' and L0 is None:
            return [('in', r[0], r, frozenset(), None, None) for r in (P0, A0)]
        if nd.id not in sec and not (nd.kind == 'mark' and nd.data['label'] == 'end'):
            return [s]
        if nd.kind == 'loop' and nd.data['L'] == L0:
            if s[0] == 'in':
                check('turn', s[1], s[2], s[4], s[5])
            return [('out',)]
        if L0 is not None and s[0] == 'out' and L0 in nd.loops:
            outs = []
            for r in (P0, A0):
                outs += step(nd, ('in', r[0], r, frozenset(), None, None))
            return outs
        if s[0] != 'in':
            return [s]
        if nd.kind == 'mark' and nd.data['label'] == 'end' or L0 is not None and L0 not in nd.loops:
            if nd.kind == 'mark' or not only_fails2(a, nd):
                check('turn' if L0 is None else 'left', s[1], s[2], s[4], s[5])
            return [('out',)]
        if nd.kind == 'exec' and a.stmt(nd).table == 'vertices':
            k = key_term(a, nd)
            if k is None or isinstance(k, T) and ed.classify(k) == ('edge', E):
                r = rw.apply(nd, s[2], s[3])
                if r is None:
                    if not only_fails2(a, nd):
                        check('constraint', s[1], s[2], nd.where, s[5])
                    return []
                return [('in', s[1], row, res, nd.where, s[5]) for row, res in r]
        return [s]

    def filt(s, facts):
        if s[0] != 'in':
            return s
        row = rw.consistent(s[2], s[3], facts)
        if row is None:
            return None
        g = guard_of(a, E, facts) or s[5]
        return s[:2] + (row, s[3], s[4], g)
    a.flow([('out',)], step, filt)


ADDS = ('add', 'add_default', 'add_two', 'add_many')
REMOVES = ('remove', 'remove_two', 'remove_many')


def odd_keys(a, rep, ed, what, cols):
    for nd, st in vertex_events(a):
        if st.kind == 'SELECT' or nd.id not in a.section('start', 'end'):
            continue
        rel = {c for c, _ in st.sets} | set(st.cols if st.kind == 'INSERT' else ()) | {c for c, _ in st.conflict or ()}
        if not (rel & cols) and st.kind not in ('DELETE', 'INSERT'):
            continue
        k = key_term(a, nd)
        if k is None:
            rep.bad(what + ' of every row changed', '%s: %s' % (a.label, place(nd.where)), 'the statement %r at %s has no key' % (
                st.text[:80], placel(nd.where)), path_of(nd.where))
        elif k is False:
            if isinstance(st.where, list) and st.kind != 'INSERT':
                ids = [(o, a.bind(nd, r)) for l, o, r in st.where if l == ('col', 'id')]
                if ids and all(t is not None for o, t in ids) and any(o not in ('=',) for o, t in ids):
                    rep.bad(what + ' of other rows changed', '%s: %s' % (a.label, place(nd.where)),
                            'the statement %r at %s reaches rows by %s' % (st.text[:80], placel(nd.where), ids[0][0]), path_of(nd.where))
                    continue
            rep.undec('key of %s at %s' % (st.text[:40], placel(nd.where)))
        else:
            c = ed.classify(k)
            if c[0] == 'odd':
                rep.bad(what + ' of a wrong row', '%s: %s' % (a.label, place(nd.where)), '%s at %s: %s' % (
                    st.text[:60], placel(nd.where), c[1]), path_of(nd.where))
            elif c[0] == 'other':
                rep.undec('row %s at %s' % (show(k)[:80], placel(nd.where)))
            else:
                rep.ok('keyed vertex writes')


def loop_covers(a, rep, ed, E, L0, Ls, what):
    """on every path on which the edge turned out to be new (stored), the loop over all its elements is run"""
    heads = {n.id for n in a.by('loop') if n.data['L'] in Ls}
    want = 'new' if a.op in ADDS else 'old'

    def step(nd, s):
        g, seen = s
        if nd.kind == 'mark' and nd.data['label'] == 'start':
            return [(None, False)]
        if L0 is not None and nd.kind == 'loop' and nd.data['L'] == L0:
            if g == want and not seen:
                fail(nd)
            return [(None, False)]
        if nd.kind == 'mark' and nd.data['label'] == 'end':
            if g == want:
                rep.ok('paths of a %s edge' % ('new' if want == 'new' else 'stored'))
                if not seen:
                    fail(nd)
            return [(None, False)]
        if nd.id in heads:
            return [(g, True)]
        return [s]

    def fail(nd):
        rep.bad('elements not visited', '%s' % a.label, 'there is a path on which %s of the edge elements is not changed at all' % what)

    def filt(s, facts):
        g = guard_of(a, E, facts)
        return (g or s[0], s[1])
    a.flow([(None, False)], step, filt)


def each(prog, rep, ops):
    for b in BACKENDS:
        for op in ops:
            a = analyse(prog, b, op)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            ed = Edges(a)
            if not ed.edges:
                rep.undec('%s: edges not recognised' % a.label)
                continue
            yield a, ed


def dshow(d):
    if d is None:
        return 'no row'
    if d[0] == 'i':
        return 'the old degree%+d' % d[1] if d[1] else 'the old degree'
    if d[0] == 'c':
        return 'degree %s' % show(d[1])
    return 'an unknown degree'


def s08(prog, rep, tier):
    rep.rules.append('row typestate per turn of the loop over the elements of the edge, split on the row being present or absent')
    for a, ed in each(prog, rep, ADDS + REMOVES):
        adding = a.op in ADDS
        odd_keys(a, rep, ed, 'degree', {'degree'})
        for E, L0 in ed.edges:
            def check(kind, start, row, where, a=a, adding=adding):
                rep.ok('element rows')
                cons = '%s: %s' % (a.label, place(where))
                if kind == 'left':
                    rep.bad('loop over the elements left early', a.label, 'some elements are not visited', path_of(where))
                    return
                if kind == 'constraint':
                    rep.bad('vertex inserted twice', cons, 'a row that exists is inserted again', path_of(where))
                    return
                if row[1] is not None and row[1][0] == '?':
                    rep.undec('degree value in %s' % a.label)
                    return
                if adding:
                    want = ('i', 1) if start == 'P' else ('c', C(1))
                    if row[0] != 'P' or row[1] != want:
                        rep.bad('degree after add', cons, 'an element that was %s ends up with %s instead of %s' % (
                            'stored' if start == 'P' else 'not stored', dshow(row[1] if row[0] == 'P' else None), dshow(want)), path_of(where))
                elif start == 'P':
                    if row[0] == 'P' and row[1] != ('i', -1) or row[0] == 'D' and row[1] not in (('i', -1), ('i', 0)):
                        rep.bad('degree after remove', cons, 'an element ends up with %s instead of %s' % (
                            dshow(row[1]), dshow(('i', -1))), path_of(where))
                    elif row[0] == 'D' and row[3] is not True:
                        rep.bad('element deleted', cons, 'the row of an element is deleted', path_of(where))
                else:
                    if row[0] == 'P':
                        rep.bad('degree after remove', cons, 'removing an edge creates a vertex', path_of(where))
            Ls = element_rows(a, rep, ed, E, L0, adding, check)
            poss = [nd for nd, st in vertex_events(a) if isinstance(key_term(a, nd), T) and ed.classify(key_term(a, nd))[0] == 'pos']
            if not Ls:
                if poss or rep.undecided:
                    rep.undec('%s: no loop over the elements' % a.label)
                else:
                    rep.bad('degree never changed', a.label, 'no statement changes the degree of the elements of the edge')
            else:
                loop_covers(a, rep, ed, E, L0, Ls, 'the degree')

            def echeck(kind, start, row, where, g, a=a, adding=adding):
                rep.ok('edge rows')
                cons = '%s: %s' % (a.label, place(where))
                if row[1] is not None and row[1][0] == '?':
                    rep.undec('degree value in %s' % a.label)
                elif kind == 'constraint':
                    rep.bad('edge inserted twice', cons, 'the row of the edge is inserted although it may exist as a vertex', path_of(where))
                elif start == 'P' and row[0] == 'P' and row[1] != ('i', 0):
                    rep.bad('degree of the edge as a vertex', cons, 'an edge that is used as a vertex ends up with %s' % dshow(row[1]), path_of(where))
                elif start == 'P' and row[0] == 'D' and (adding or row[3] is not True):
                    rep.bad('degree of the edge as a vertex', cons, 'the row of an edge that may be used as a vertex is deleted', path_of(where))
                elif start == 'A' and row[0] == 'P' and adding and row[1] != ('c', C(0)):
                    rep.bad('degree of the edge as a vertex', cons, 'a new edge starts with %s' % dshow(row[1]), path_of(where))
            edge_row(a, rep, ed, E, L0, echeck)
    # no other operation changes a degree
    for b in BACKENDS:
        for op in OPS:
            if op in ADDS + REMOVES + ('destroy', 'batch'):
                continue
            a = analyse(prog, b, op)
            for i in a.section('start', 'end'):
                nd = a.nodes[i]
                if nd.kind == 'exec' and is_write(a, nd) and a.stmt(nd).table in ('vertices', None):
                    rep.bad('degree changed by a query', '%s: %s' % (a.label, place(nd.where)), '%r' % a.stmt(nd).text[:80], path_of(nd.where))
            rep.ok('other operations')


def s09(prog, rep, tier):
    rep.rules.append('every write of add (remove) is dominated by a test on the index entries of the same edge with outcome "not stored" ("stored"), '
                     'made after the writes of any other edge')
    for a, ed in each(prog, rep, ADDS + REMOVES):
        want = 'new' if a.op in ADDS else 'old'
        for E, L0 in ed.edges:
            others = [e for e, _ in ed.edges if e is not E]

            def mine(nd):
                b = nd.data['binds']
                return b is not None and has(b, E)

            def step(nd, s):
                if nd.kind == 'mark' and nd.data['label'] == 'start':
                    return ['unk']
                if L0 is not None and nd.kind == 'loop' and nd.data['L'] == L0:
                    return ['unk']
                if nd.id in sec and is_write(a, nd):
                    if mine(nd):
                        rep.ok('guarded writes')
                        if s != want:
                            cons = '%s: %s' % (a.label, place(nd.where))
                            msg = 'the write at %s %s' % (placel(nd.where), 'happens although the edge is %s' % (
                                'already stored' if want == 'new' else 'not stored') if s != 'unk' else 'does not depend on whether the edge is stored')
                            if s == 'unk' and vague_guard(a, E):
                                rep.undec('guard of %s' % placel(nd.where))
                            else:
                                rep.bad('unguarded write', cons, msg, path_of(nd.where))
                    elif nd.data['binds'] is None or not any(has(nd.data['binds'], e) for e in others):
                        rep.undec('write of an unrecognised row at %s' % placel(nd.where))
                return [s]

            def filt(s, facts):
                return guard_of(a, E, facts) or s
            sec = a.section('start', 'end')
            stale(a, rep, ed, E, L0, want, mine, sec)
            a.flow(['unk'], step, filt)


def vague_guard(a, E):
    """some branch depends on the index rows of E in a way guard_of does not understand"""
    for fl in a.eng.efacts.values():
        for f in fl:
            for c in f:
                if vague(c):
                    return True
                if c.op not in ('some', 'in', 'isnone') and any(x.op == 'rows' and any(
                        a.stmt(n).kind == 'SELECT' and a.stmt(n).table == 'perms' and n.data['binds'] is not None and has(n.data['binds'], E)
                        for n in a.execs_of(x)) for x in walk(c)):
                    return True
    return False


def stale(a, rep, ed, E, L0, want, mine, sec):
    """the rows the test looks at were read before another edge of the same call was written"""
    reads = {}
    for n in a.by('exec'):
        st = a.stmt(n)
        if st.kind == 'SELECT' and st.table == 'perms' and n.data['binds'] is not None and has(n.data['binds'], E):
            reads.setdefault(n.data['rows'], []).append(n.id)
    if L0 is None and len(ed.edges) < 2:
        return

    # state: rows of E read since another edge was written
    def step(nd, s):
        if nd.kind == 'mark' and nd.data['label'] == 'start':
            return [frozenset()]
        if L0 is not None and nd.kind == 'loop' and nd.data['L'] == L0:
            return [frozenset()]
        if nd.kind == 'exec':
            if nd.id in sec and is_write(a, nd):
                if not mine(nd) and a.stmt(nd).table == 'perms' and nd.data['binds'] is not None and any(
                        has(nd.data['binds'], e) for e, _ in ed.edges if e is not E):
                    return [frozenset()]
                if mine(nd):
                    fresh = [r for r in s if any(has(c, r) for c in nd.facts)]
                    used = [r for r in reads if any(has(c, r) for c in nd.facts if c.op in ('some', 'in'))]
                    if used and not fresh:
                        rep.bad('stale test', '%s: %s' % (a.label, place(nd.where)),
                                'whether the edge is stored was tested before other edges of the same call were written', path_of(nd.where))
                    rep.ok('fresh tests')
            elif nd.data['rows'] in reads:
                return [s | {nd.data['rows']}]
        return [s]
    a.flow([frozenset()], step)


def s10(prog, rep, tier):
    rep.rules.append('value of the timestamp column for every row add introduces; no statement changes it for a stored row')
    sch = {b: schema(prog, b)[0] for b in BACKENDS}
    for a, ed in each(prog, rep, ADDS + REMOVES):
        adding = a.op in ADDS
        want = C(-1) if a.op == 'add_default' else param('ts')
        for E, L0 in ed.edges:
            def check(kind, start, row, where, g=None, a=a, adding=adding, want=want):
                rep.ok('rows')
                cons = '%s: %s' % (a.label, place(where))
                if kind in ('constraint', 'left'):
                    return
                if row[0] == 'P' and row[2] == '?':
                    rep.undec('timestamp value in %s' % a.label)
                elif start == 'P' and row[0] == 'P' and row[2] != 'keep':
                    rep.bad('timestamp of a stored vertex changed', cons, 'a vertex that is already stored gets the timestamp %s' % show(row[2]),
                            path_of(where))
                elif adding and start == 'A' and row[0] == 'P' and row[2] is not want:
                    if isinstance(row[2], T) and vague(row[2]):
                        rep.undec('timestamp value %s in %s' % (show(row[2])[:60], a.label))
                    else:
                        rep.bad('timestamp of a new vertex', cons, 'a vertex introduced by the call gets the timestamp %s instead of %s' % (
                            show(row[2]) if isinstance(row[2], T) else row[2], show(want)), path_of(where))
                elif not adding and start == 'A' and row[0] == 'P':
                    rep.bad('remove creates a vertex', cons, 'removing an edge inserts a row', path_of(where))

            def echeck(kind, start, row, where, g=None, a=a, adding=adding, want=want, check=check):
                check(kind, start, row, where, g)
                if adding and start == 'A' and row[0] != 'P' and g == 'new':
                    rep.bad('edge not recorded', a.label, 'a new edge gets no row, so its timestamp is lost')
                if not adding and g == 'old' and start == 'P' and row[0] == 'P' and row[3] is True:
                    rep.bad('removed edge keeps its timestamp', a.label,
                            'the row of a removed edge that is not used as a vertex survives with its timestamp')
            element_rows(a, rep, ed, E, L0, adding, check)
            edge_row(a, rep, ed, E, L0, echeck)
    # the reader of timestamps
    for b in BACKENDS:
        a = analyse(prog, b, 'timestamp')
        reader(a, rep, 'timestamp', C(-1))
    # other layers are checked at the call they make (F01, F03, F05); here: nothing else writes the column
    for b in BACKENDS:
        for op in OPS:
            if op in ADDS + REMOVES + ('batch', 'destroy'):
                continue
            a = analyse(prog, b, op)
            for i in a.section('start', 'end'):
                nd = a.nodes[i]
                if nd.kind == 'exec' and is_write(a, nd):
                    rep.bad('timestamp changed by a query', '%s: %s' % (a.label, place(nd.where)), '%r' % a.stmt(nd).text[:80], path_of(nd.where))
            rep.ok('other operations')
    layers(prog, rep)


def reader(a, rep, col, dflt):
    """degree/timestamp lookups: the column of the row of the vertex, or the default if there is none"""
    rep.functions |= a.eng.analysed
    v = param('vertex')
    for nd in a.by('exec'):
        if nd.id in a.section('start', 'end'):
            st = a.stmt(nd)
            if st.kind == 'SELECT':
                k = key_term(a, nd)
                x = e2s_arg(plain(k)) if isinstance(k, T) else None
                if st.table != 'vertices' or st.cols[:1] != [('col', col)]:
                    rep.bad('%s lookup' % col, '%s: %s' % (a.label, place(nd.where)), 'it reads %r' % st.text[:80], path_of(nd.where))
                elif x is not v:
                    if k is False or isinstance(k, T) and vague(k):
                        rep.undec('key at %s' % placel(nd.where))
                    else:
                        rep.bad('%s lookup' % col, '%s: %s' % (a.label, place(nd.where)), 'the row is looked up by %s' % (
                            show(k)[:80] if isinstance(k, T) else 'no key'), path_of(nd.where))
                else:
                    rep.ok('lookups')
    for x in a.exits('r'):
        val = x.data['value']
        rows = [y for y in walk(val) if y.op == 'rows']
        if rows:
            if val.op == 'item' and val.a[0].op == 'item' and is_int(val.a[1]) and cv(val.a[1]) == 0:
                rep.ok('values returned')
            elif not vague(val):
                rep.bad('%s lookup' % col, '%s' % a.label, 'it returns %s' % show(val)[:100])
        elif val is not dflt:
            if vague(val):
                rep.undec('value of %s' % a.label)
            else:
                rep.bad('%s lookup' % col, '%s' % a.label, 'for an unknown vertex it returns %s instead of %s' % (show(val)[:40], show(dflt)))
        else:
            rep.ok('defaults returned')


def layers(prog, rep):
    """facade layers over an SQL store: every inserted row carries the caller's timestamp"""
    hg, bh = 'hg = facade(ext)', 'hg = buffered(ext, 1000)'
    cases = []
    for cls, batch, make, fl in (('HyperGraph', False, hg, ''), ('BatchHyperGraph', True, bh, '\nhg.flush()')):
        for how, e, pre in (('', 'edge', single(prog, 'edge')), (' of several edges', 'edges', 'pass')):
            for op, ps, args in (('add', e, e), ('add_belief', 'source, ' + e, 'source, ' + e)):
                for dflt, extra, want in (('', ', ts', param('ts')), (' (default)', '', C(-1))):
                    cases.append(('%s.%s%s%s' % (cls, op, how, dflt), batch, ps + extra, make, pre,
                                  'hg.%s(%s%s)%s' % (op, args, extra, fl), want))
    for label, batch, ps, make, pre, call, want in cases:
        a = fdrive(prog, '\n'.join([make, pre, 'mark("start")', call, 'mark("end")']), ps, label, batch)
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (label, a.imprecise))
            continue
        n = 0
        for nd, name, args, kw in store_calls(a):
            if name == 'add':
                n += 1
                ts = args[1]
                if ts is want or same_ts(ts, want, nd.facts):
                    rep.ok('forwarded timestamps')
                elif vague(ts):
                    rep.undec('timestamp forwarded by %s' % label)
                else:
                    rep.bad('timestamp not forwarded', '%s: %s' % (label, place(nd.where)), 'the store is given the timestamp %s instead of %s' % (
                        show(ts)[:60], show(want)), path_of(nd.where))
        if not n:
            rep.undec('%s: no add on the store seen' % label)


def same_ts(ts, want, facts):
    """ts is want according to the facts of the path (want == -1)"""
    return facts.get(mk('eq', ts, want)) is True or facts.get(mk('eq', want, ts)) is True
