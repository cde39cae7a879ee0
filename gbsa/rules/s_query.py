"""S11 star and root lookups, S12 pattern matching and existence."""
import ast
import itertools

from .storage import *
from .s_index import Index, edge_term, text_of, wrap, tokens, orderings, contracts, succ, value_set, parts_cat, entry_show
from .. import sqlp


def entries_of(E):
    """index entries of an edge, numbered in the order of itertools.permutations (the order S07 establishes round-trips)"""
    vals = [text_of(g.a[0]) for g in E.a[0]]
    out = []
    for k, p in enumerate(itertools.permutations(vals)):
        parts = []
        for v in p:
            parts += [v, ' ']
        out.append(mkstr(parts + [str(k)]))
    return out


def distinct_lines(names, consts=()):
    """the named atoms are distinct entities, distinct from the constants, and atoms"""
    out = []
    for x in names:
        out.append('assume(%s is not None)' % x)
        out.append('assume(%s)' % x)
    for x, y in itertools.combinations(names, 2):
        out.append('assume(%s != %s)' % (x, y))
        out.append('assume(ed.edge2str(%s) != ed.edge2str(%s))' % (x, y))
    for x in names:
        for c in consts:
            out.append('assume(%s != %r)' % (x, c))
            out.append('assume(ed.edge2str(%s) != %r)' % (x, str(c)))
        for y in NESTED:
            out.append('assume(%s != %s)' % (x, y))
            out.append('assume(ed.edge2str(%s) != ed.edge2str(%s))' % (x, y))
    return out


NESTED = ('(a, b)', '(b, a)')
NAMES = ('a', 'b', 'c', 'd')


def qdrive(prog, b, call, rows, label, consts=()):
    body = 'def drive(params, %s):\n    sql = open_store(params)\n' % ', '.join(NAMES)
    for l in distinct_lines(NAMES, consts):
        body += '    %s\n' % l
    body += '    mark("start")\n    r = %s\n    mark("end", r)\n    return r\n' % call
    return custom(prog, b, body, label=label, opaque=contracts, rows=rows, unroll=400, max_steps=1500000)


def texts(v):
    """printable value with parameters by name"""
    if v.op == 'tuple':
        return '(%s)' % ', '.join(texts(g.a[0]) if g.op == 'one' else '..' for g in v.a[0])
    return show(v)


def result(prog, rep, b, call, edges, what, want, rule, consts=(), truth=False, ctx=''):
    """the value of a query on an index that holds exactly the entries of the given edges"""
    ents = [e for E in edges for e in entries_of(E)]
    ix = Index(ents)
    a = qdrive(prog, b, call, ix, '%s, %s' % (BACKENDS[b][1], what), consts)
    rep.functions |= a.eng.analysed
    if a.imprecise or ix.unknown:
        rep.undec('%s: %s' % (a.label, a.imprecise or ix.unknown[0]))
        return
    cons = '%s.%s' % (BACKENDS[b][1], call[4:call.index('(')])
    for x in a.exits():
        if x.data['kind'] == 'raise':
            rep.bad(rule, cons, '%s fails with %s' % (what, texts(x.data['value'])))
            continue
        if x.data['kind'] != 'r':
            continue
        v = x.data['value']
        if truth:
            if not is_c(v):
                rep.undec('%s: result %s' % (a.label, show(v)[:80]))
            else:
                rep.ok('existence answers')
                if bool(cv(v)) != want:
                    rep.bad(rule, cons, '%s answers %s%s' % (what, show(v), ctx))
            continue
        got = value_set(v)
        if got is None:
            rep.undec('%s: result %s' % (a.label, show(v)[:100]))
            continue
        rep.ok('query results', max(1, len(edges)))
        if got != want:
            if any(vague(g) for g in got):
                rep.undec('%s: result %s' % (a.label, show(v)[:100]))
                continue
            extra = sorted(texts(g) for g in got - want)
            miss = sorted(texts(g) for g in want - got)
            rep.bad(rule, cons, '%s %s' % (what, '; '.join(
                (['also gives ' + ', '.join(extra)] if extra else []) + (['misses ' + ', '.join(miss)] if miss else []))))


# ------------------------------------------------------------------ bounds of the index scans
def prefix_scan(st, a, nd):
    """('range', lo, hi) | ('like', term) | ('all',) | ('eq', term) | None"""
    if st.where is None:
        return ('all',)
    if st.where == '?':
        return None
    cs = {}
    for l, o, r in st.where:
        if l != ('col', 'id'):
            return None
        v = a.bind(nd, r)
        if v is None:
            return None
        cs.setdefault(o, []).append(v)
    if any(len(v) > 1 for v in cs.values()):
        return None
    ops = set(cs)
    if ops == {'like'}:
        return ('like', cs['like'][0])
    if ops == {'glob'}:
        return ('like', cs['glob'][0])
    if ops == {'='}:
        return ('eq', cs['='][0])
    lo = [o for o in ops if o in ('>=', '>')]
    hi = [o for o in ops if o in ('<', '<=')]
    if len(lo) == 1 and len(hi) == 1 and len(ops) == 2:
        return ('range', cs[lo[0]][0], cs[hi[0]][0])
    if len(ops) == 1 and (lo or hi):
        return ('half', cs[(lo or hi)[0]][0])
    return None


def scan_rule(a, rep, nd, good, delim, rule):
    """the scan covers exactly the entries that start with X + delim, for an accepted X"""
    st = a.stmt(nd)
    cons = '%s: %s' % (a.label, place(nd.where))
    w = path_of(nd.where)
    if 'limit' in st.flags:
        rep.bad(rule, cons, 'the scan %r is cut off by LIMIT' % st.text[:90], w)
        return
    s = prefix_scan(st, a, nd)
    if s is None:
        rep.undec('scan %s at %s' % (st.text[:80], placel(nd.where)))
        return
    if s[0] == 'all':
        return s
    if s[0] == 'half':
        rep.bad(rule, cons, 'the scan %r has one bound only' % st.text[:90], w)
        return
    if s[0] == 'eq':
        rep.bad(rule, cons, 'the scan %r matches one entry exactly' % st.text[:90], w)
        return
    if s[0] == 'like':
        p = parts_cat(s[1])
        if vague(s[1]):
            rep.undec('scan %s at %s' % (st.text[:80], placel(nd.where)))
        elif not any(isinstance(x, T) for x in p):
            rep.bad(rule, cons, 'the scan %r does not depend on what is looked up' % st.text[:90], w)
        else:
            rep.bad(rule, cons, 'the scan %r uses LIKE with unescaped text: "_" and "%%" in symbols match other characters' % st.text[:90], w)
        return
    lo, hi = s[1], s[2]
    p = parts_cat(lo)
    if vague(lo) or vague(hi):
        rep.undec('bounds %s at %s' % (show(lo)[:80], placel(nd.where)))
        return
    if not (p and isinstance(p[-1], str) and p[-1].endswith(delim)):
        rep.bad(rule, cons, 'the lower bound %s does not end with the delimiter %r, so entities that start alike are included' % (show(lo)[:120], delim), w)
        return
    if p[-1] != delim or len(p) != 2 or not isinstance(p[0], T) or not good(p[0]):
        rep.bad(rule, cons, 'the lower bound %s is not the text of what is looked up followed by %r' % (show(lo)[:120], delim), w)
        return
    if hi is not succ(lo):
        rep.bad(rule, cons, 'the upper bound %s is not the successor of the lower bound %s' % (show(hi)[:120], show(lo)[:120]), w)
        return
    rep.ok('scan bounds')
    return s


def scans(a):
    sec = a.section('start', 'end')
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if nd.id in sec and st.kind == 'SELECT' and st.table == 'perms':
            yield nd, st


def kept_rows(a, rep, rule):
    """no row of the scan is dropped on the way to the result by a condition or a constant cut"""
    for x in a.exits('r'):
        v = x.data['value']
        for t in walk(v):
            if t.op == 'slice' and any(is_int(b) and abs(cv(b)) >= 1 for b in t.a[1:3]) and from_rows(t.a[0]):
                rep.bad(rule, a.label, 'the result is cut to %s' % show(t)[-60:])
        rep.ok('results uncut')


def from_rows(t):
    """a collection of rows, or of things made one per row"""
    while True:
        if t.op == 'uniq' or t.op == 'sorted' or t.op == 'reversed':
            t = t.a[0]
            continue
        if t.op == 'tuple' and len(t.a[0]) == 1:
            g = t.a[0][0]
            if g.op == 'spread':
                t = g.a[0]
                continue
            if g.op == 'many':
                t = g.a[1]
                continue
        return t.op == 'rows'


def s11(prog, rep, tier):
    rep.rules.append('bounds of every index scan of star and root lookups are exactly [X+delimiter, successor) for the text X of what is looked up; '
                     'results computed on symbolic indexes with look-alike edges are exact')
    for b in BACKENDS:
        for op, good, delim in (('star', lambda t: is_call(t, E2S) and len(t.a[1]) == 1 and t.a[1][0] is param('center'), ' '),
                                ('root', lambda t: unstr(t) is param('root') or e2s_arg(t) is param('root'), '/')):
            a = analyse(prog, b, op)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            n = 0
            for nd, st in scans(a):
                n += 1
                scan_rule(a, rep, nd, good, delim, 'scan bounds of %s' % op)
            if not n:
                rep.undec('%s: no scan of the index' % a.label)
            kept_rows(a, rep, 'result of %s' % op)
        shapes11(prog, rep, b, tier)
    rep.sample('star(a) on an index of (a,b), (b,a), (a,b,c), (c,b), ((a,b),c), (b,12) gives exactly the edges with element a')


def shapes11(prog, rep, b, tier):
    P = lambda s: edge_term(s, ())
    edges = [P('(a, b)'), P('(b, a)'), P('(a, b, c)'), P('(c, b)'), P('((a, b), c)'), P('(b, 12)'), P('(a, 12, a)')]
    if tier == 'thorough':
        edges += [P('(d, c, a, b)'), P('(c, (b, a), (a, b))'), P('(12, 7)')]
    for what, x in (('a', param('a')), ('b', param('b')), ('d', param('d')), ('(a, b)', P('(a, b)')), ('(b, a)', P('(b, a)')), ('12', C(12))):
        want = {E for E in edges if any(g.a[0] is x for g in E.a[0])}
        result(prog, rep, b, 'sql.star(%s)' % what, edges, 'the star of %s' % what, want, 'result of star')
    lits = ["('r/1', 'b')", "('r', 'b')", "('rx/1', 'b')", "('b', 'r/2')", "('x', 'r/1')", "('r0', 'r.')", "(('r/3', 'b'), 'c')", "('xr/1', 'c')",
            "('r/1/2', 'c')"]
    edges = [P(x) for x in lits]
    result(prog, rep, b, "sql.symbols_with_root('r')", edges, "the symbols with root 'r'", {C('r/1'), C('r/2'), C('r/1/2')}, 'result of root')
    result(prog, rep, b, "sql.symbols_with_root('q')", edges, "the symbols with an unused root", set(), 'result of root')


# ------------------------------------------------------------------ patterns
def matches(E, pat):
    if len(E.a[0]) != len(pat):
        return False
    return all(p is None or p is g.a[0] for p, g in zip(pat, E.a[0]))


def s12(prog, rep, tier):
    rep.rules.append('results of patterns of every wildcard combination, and of existence checks, computed on symbolic indexes of look-alike edges, are exact; '
                     'for patterns of unknown length the scan bounds and the kept condition have no constant cut-off')
    for b in BACKENDS:
        family(prog, rep, b, tier)
        symbolic12(prog, rep, b)


def family(prog, rep, b, tier):
    P = lambda s: edge_term(s, ())
    src = ['(a, b)', '(b, a)', '(a, c)', '(a, b, c)', '(a, c, b)', '(b, a, c)', '(a, a, b)', '(a, b, 12)', '((a, b), c)', '(c, (a, b))', '(a, (a, b), c)', '(a, b, 0)', '(a, 0, b)', '((a, b), (b, a))']
    if tier == 'thorough':
        src += ['(a, b, c, d)', '(a, b, d, c)', '(b, a, 12, (a, b))']
    edges = [P(s) for s in src]
    tests = [('a', 'b'), ('a', 'b', 'c'), ('a', 'a', 'b'), ('a', 'b', '12'), ('(a, b)', 'c'), ('a', '(a, b)', 'c'), ('a', '0', 'b')]
    if b == 'mysql' and tier != 'thorough':
        tests = tests[:2] + tests[4:5] + tests[6:]
    if tier == 'thorough':
        tests += [('a', 'b', 'c', 'd'), ('b', 'a', '12', '(a, b)'), ('c', '(a, b)'), ('a', 'd')]
    done = set()
    for t in tests:
        for mask in itertools.product((0, 1), repeat=len(t)):
            p = tuple('None' if m else x for m, x in zip(mask, t))
            if p in done:
                continue
            done.add(p)
            pat = [None if x == 'None' else edge_term(x, ()) for x in p]
            want = {E for E in edges if matches(E, pat)}
            result(prog, rep, b, 'sql.pattern2edges((%s,))' % ', '.join(p), edges, 'the pattern (%s)' % ', '.join(p), want, 'result of a pattern', consts=(12, 0))
    # existence: look-alikes do not count
    for s in ('(a, b, c)', '(a, b)', '((a, b), c)', '(a, b, 12)'):
        E = P(s)
        for have, want in ((edges, True), ([x for x in edges if x is not E], False), ([], False)):
            result(prog, rep, b, 'sql.exists(%s)' % s, have, 'the existence of %s among %d edges' % (s, len(have)), want, 'existence', consts=(12, 0), truth=True)


def symbolic12(prog, rep, b):
    pat = param('pattern')
    for op in ('pattern', 'pattern_wild', 'exists'):
        a = analyse(prog, b, op)
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        p = param('edge') if op == 'exists' else pat

        def good(t, p=p):
            # text of the non-wildcard elements, in order
            if not is_call(t, N2S) and not (t.op == 'join' and t.a[0] is C(' ')):
                return False
            return any(x is p for x in walk(t)) and not any(x.op in ('slice', 'suffix') for x in walk(t))
        n = 0
        for nd, st in scans(a):
            n += 1
            s = scan_rule(a, rep, nd, good, ' ', 'scan bounds of patterns')
            if s and s[0] == 'all':
                rep.ok('full scans')
        if not n:
            rep.undec('%s: no scan of the index' % a.label)
        # constant cut-offs of the positional comparison
        size = mk('len', p)
        for x in a.exits('r'):
            v = x.data['value']
            terms = list(walk(v)) + [y for c in x.facts for y in walk(c)]
            for t in terms:
                if t.op in ('lt', 'eq') and any(is_int(y) and cv(y) >= 2 for y in t.a) and any(y is size for y in t.a):
                    rep.bad('pattern length cut-off', a.label, 'matching depends on the pattern being longer than a constant: %s' % show(t)[:80])
                if t.op == 'min' and any(y is size for y in walk(t)):
                    rep.bad('pattern length cut-off', a.label, 'matching looks at a constant number of positions: %s' % show(t)[:80])
            rep.ok('unbounded patterns')
        kept_rows(a, rep, 'result of a pattern')
