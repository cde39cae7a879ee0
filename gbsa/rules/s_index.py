"""S07: the permutation index, by constant propagation over edges of fixed arity with symbolic elements.

An edge is a tuple of distinct symbolic elements; the text of an element x is one opaque token edge2str(x).
Index entries are then string templates whose tokens are known, and the index is a finite set of templates.
"""
import itertools
import math
import re

from .storage import *
from .. import sqlp

NUM = re.compile(r'^-?(\d+)$')
FLT = re.compile(r'^-?(\d+\.\d*|\.\d+)$')


# ------------------------------------------------------------------ contracts of gb.hypergraph.edge on templates
def text_of(x):
    """template of edge2str(x)"""
    x = unstr(x) if x.op == 'str' else x
    if x.op == 'str' or is_c(x, str):
        return x
    if is_c(x) and isinstance(cv(x), (int, float)) and not isinstance(cv(x), bool):
        return C(str(cv(x)))
    if x.op == 'tuple':
        if all(g.op == 'one' for g in x.a[0]):
            return wrap(nodes_of(x))
        return None
    if is_call(x, E2S):
        return x
    return mk('call', E2S, (x,))


def wrap(t):
    return mkstr(['(', t, ')'])


def nodes_of(x):
    parts = []
    if x.op != 'tuple' or not all(g.op == 'one' for g in x.a[0]):
        return None
    for g in x.a[0]:
        t = text_of(g.a[0])
        if t is None:
            return None
        if parts:
            parts.append(' ')
        parts.append(t)
    return mkstr(parts)


def split_text(t):
    """shallow tokens of an edge text template, or None"""
    parts = list(str_parts(t))
    if not parts:
        return None
    if isinstance(parts[0], str) and parts[0].startswith('('):
        if not isinstance(parts[-1], str):
            return None
        parts[0] = parts[0][1:]
        parts[-1] = parts[-1][:-1]
    toks = []
    cur = []
    depth = 0
    for p in parts:
        if not isinstance(p, str):
            if not is_call(p, E2S):
                return None
            cur.append(p)
            continue
        for ch in p:
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
            if ch.isspace() and depth == 0:
                if cur:
                    toks.append(mkstr(cur))
                cur = []
            else:
                cur.append(ch)
    if cur:
        toks.append(mkstr(cur))
    return [single_hole(t) for t in toks]


def single_hole(t):
    return t.a[0][0] if t.op == 'str' and len(t.a[0]) == 1 and not isinstance(t.a[0][0], str) else t


def value_of(tok):
    """parsed_token on a template"""
    tok = single_hole(tok)
    if is_call(tok, E2S) and len(tok.a[1]) == 1:
        return tok.a[1][0]
    if is_c(tok, str):
        s = cv(tok)
        if NUM.match(s):
            return C(int(s))
        if FLT.match(s):
            return C(float(s))
        if not s.startswith('('):
            return tok
    p = str_parts(tok)
    if p and isinstance(p[0], str) and p[0].startswith('('):
        return edge_of(tok)
    return tok


def edge_of(t):
    toks = split_text(t)
    if toks is None:
        return None
    vals = [value_of(x) for x in toks]
    if any(v is None for v in vals) or not vals:
        return None
    return tup(*vals) if len(vals) > 1 else vals[0]


def contracts(fi):
    if fi.mod.name == 'gb.hypergraph.edge':
        q = fi.qual
        if q == 'edge2str':
            return lambda eng, s, fr, n, args: text_of(args[0]) if args else None
        if q == 'atom2str':
            return lambda eng, s, fr, n, args: text_of(args[0]) if args else None
        if q == 'nodes2str':
            return lambda eng, s, fr, n, args: nodes_of(args[0])
        if q == 'split_edge_str':
            def sp(eng, s, fr, n, args):
                t = split_text(unstr(args[0]) if args[0].op == 'str' else args[0])
                return tup(*t) if t is not None else None
            return sp
        if q == 'str2edge':
            return lambda eng, s, fr, n, args: edge_of(args[0])
        if q in ('parsed_token', 'str2atom'):
            return lambda eng, s, fr, n, args: value_of(args[0])
    return lenient(fi)


# ------------------------------------------------------------------ result sets
def parts_cat(t):
    return list(str_parts(t))


def has_prefix(t, p):
    """template t starts with template p: True | False | None (cannot tell)"""
    a, b = parts_cat(t), parts_cat(p)
    while b:
        if not a:
            return False
        x, y = a.pop(0), b.pop(0)
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            if len(x) > n:
                a.insert(0, x[n:])
            if len(y) > n:
                b.insert(0, y[n:])
        elif isinstance(x, T) and isinstance(y, T):
            if x is not y:
                # two different tokens: only whole tokens are compared when a delimiter follows
                if b and isinstance(b[0], str) and b[0][:1] in (' ', ')', '/'):
                    return False
                return None
        else:
            # a symbolic atom and a literal (a nested edge or a number): different entities by assumption
            lit, more = (x, a) if isinstance(x, str) else (y, b)
            if lit[:1] == '(' or ' ' in lit or ')' in lit:
                return False
            if isinstance(x, str) and not more and any(isinstance(z, str) and ' ' in z for z in b):
                return False        # the entry ends before the blank the prefix contains
            return None
    return True


def succ(t):
    p = parts_cat(t)
    if p and isinstance(p[-1], str) and p[-1]:
        return mkstr(p[:-1] + [p[-1][:-1] + chr(ord(p[-1][-1]) + 1)])
    return None


def selects(st, data, entry):
    """does a row with this id satisfy the conditions: True | False | None"""
    if st.where is None:
        return True
    if st.where == '?':
        return None
    conds = []
    for l, o, r in st.where:
        if l != ('col', 'id'):
            return None
        v = sqlp.bind_of(st, data, r) if r[0] == 'ph' else C(r[1]) if r[0] == 'lit' and isinstance(r[1], str) else None
        if v is None:
            return None
        conds.append((o, v))
    los = [v for o, v in conds if o == '>=']
    his = [v for o, v in conds if o == '<']
    rest = [(o, v) for o, v in conds if o not in ('>=', '<')]
    res = True
    if los or his:
        if len(los) != 1 or len(his) != 1 or succ(los[0]) is not his[0]:
            return None
        res = has_prefix(entry, los[0])
    for o, v in rest:
        if o == '=':
            x = entry is v or unstr(v) is unstr(entry)
            if not x and (vague(v)):
                x = None
        elif o in ('like', 'not like'):
            p = parts_cat(v)
            if p and isinstance(p[-1], str) and p[-1].endswith('%') and '%' not in ''.join(y for y in p if isinstance(y, str))[:-1]:
                x = has_prefix(entry, mkstr(p[:-1] + [p[-1][:-1]]))
            else:
                x = None
            if x is not None and o == 'not like':
                x = not x
        else:
            x = None
        if x is None:
            return None
        res = None if res is None else (res and x)
    return res


class Index(object):
    """rows hook: the index holds the given entries, the vertices table is not modelled"""

    def __init__(self, entries):
        self.entries = entries
        self.unknown = []

    def __call__(self, sql, binds):
        st = sqlp.parse(sql)
        if st.kind != 'SELECT' or st.table != 'perms' or st.cols[:1] != [('col', 'id')] or len(st.cols) != 1:
            return None
        if 'limit' in st.flags:
            self.unknown.append(st.text)
            return None
        out = []
        for e in self.entries:
            x = selects(st, {'binds': binds}, e)
            if x is None:
                self.unknown.append('%s with %s' % (st.text, show(binds)[:100] if binds is not None else ''))
                return None
            if x:
                out.append(tup(e))
        return tup(*out)


# ------------------------------------------------------------------ the index as a set of templates
class Bad(Exception):
    pass


def final_entries(a, start):
    """{index at the end of a successful call: a path}; raises Bad when a statement is not understood"""
    sec = a.section('start', 'end')
    ends = {}
    dup = []

    def step(nd, s):
        ents, res = s
        if nd.kind == 'mark' and nd.data['label'] == 'start':
            return [(frozenset(start), frozenset())]
        if nd.kind == 'mark' and nd.data['label'] == 'end':
            ends.setdefault(ents, nd)
            return [s]
        if nd.kind != 'exec' or nd.id not in sec:
            return [s]
        st = a.stmt(nd)
        if st.table != 'perms' or st.kind == 'SELECT':
            return [s]
        R = nd.data['rows']
        if nd.data.get('many'):
            raise Bad('executemany of %s' % st.text)
        res = frozenset(r for r in res if r[0] is not R)
        if st.kind == 'INSERT':
            k = a.bind(nd, st.vals[st.cols.index('id')]) if 'id' in st.cols and st.cols.index('id') < len(st.vals) else None
            if k is None or vague(k):
                raise Bad('the entry inserted at %s' % placel(nd.where))
            k = plain(k)
            if k in ents and not (st.flags & {'orignore', 'ignore', 'replace'}) and st.conflict is None:
                dup.append(nd)
            return [(ents | {k}, res | {(R, True)})]
        if st.kind in ('UPDATE', 'DELETE'):
            hit = set()
            for e in ents:
                x = selects(st, nd.data, e)
                if x is None:
                    raise Bad('%s at %s' % (st.text, placel(nd.where)))
                if x:
                    hit.add(e)
            new = ents - hit
            if st.kind == 'UPDATE':
                v = [a.bind(nd, x) for c, x in st.sets if c == 'id']
                if v and v[0] is None:
                    raise Bad('%s at %s' % (st.text, placel(nd.where)))
                new = new | ({plain(v[0])} if v and hit else hit)
            return [(new, res | {(R, bool(hit))})]
        raise Bad(st.text)

    def filt(s, facts):
        for R, ch in s[1]:
            f = facts.get(mk('changed', R))
            if f is not None and f != ch:
                return None
        return s
    a.flow([(frozenset(start), frozenset())], step, filt)
    return ends, dup


def shapes(tier):
    """(label, driver expression of the edge, parameters)"""
    names = 'abcde'
    out = []
    for n in range(2, 6 if tier == 'thorough' else 5):
        ps = list(names[:n])
        out.append(('%d elements' % n, '(%s,)' % ', '.join(ps), ps))
    out.append(('a repeated element', '(a, b, a)', ['a', 'b']))
    out.append(('all elements the same', '(a, a)', ['a']))
    out.append(('a nested edge', '(a, (b, c))', ['a', 'b', 'c']))
    out.append(('an edge as relation', '((a, b), c)', ['a', 'b', 'c']))
    out.append(('nesting two deep', '(a, (b, (c, d)), d)', ['a', 'b', 'c', 'd']))
    out.append(('a number', '(a, 12, b)', ['a', 'b']))
    out.append(('a number last', '(a, 3)', ['a']))
    return out


def edge_term(expr, ps):
    import ast

    def go(e):
        if isinstance(e, ast.Tuple):
            return tup(*[go(x) for x in e.elts])
        if isinstance(e, ast.Constant):
            return C(e.value)
        return param(e.id)
    return go(ast.parse(expr, mode='eval').body)


def sdrive(prog, b, expr, ps, call, rows, label, extra='', **o):
    iec = 'assume(not ed.is_edge_collection(%s))' % expr if has_def(prog, 'gb.hypergraph.edge', 'is_edge_collection') else 'pass'
    body = 'def drive(params, %s, ts):\n    sql = open_store(params)\n    %s\n' % (', '.join(ps), iec)
    for p in ps:
        body += '    assume(%s is not None)\n' % p
    body += '%s    mark("start")\n    r = %s\n    mark("end", r)\n    return r\n' % (extra, call)
    return custom(prog, b, body, label=label, opaque=contracts, rows=rows, **dict(dict(unroll=400, max_steps=1500000), **o))


def orderings(E):
    """expected multiset of token sequences"""
    vals = [text_of(g.a[0]) for g in E.a[0]]
    return sorted((tuple(p) for p in itertools.permutations(vals)), key=str)


def tokens(entry):
    t = split_text(wrap(entry))
    return t


def value_set(v):
    """elements of a returned collection, or None"""
    if v.op == 'uniq':
        v = v.a[0]
    if v.op == 'tuple' and all(g.op == 'one' for g in v.a[0]):
        return {g.a[0] for g in v.a[0]}
    return None


def s07(prog, rep, tier):
    rep.rules.append('constant propagation over edges of fixed arity with symbolic elements: the index entries after add are compared with all orderings, '
                     'the entries after remove with none, and each entry read back through star, pattern and existence queries with the edge')
    backends = list(BACKENDS) if tier == 'thorough' else ['sqlite', 'mysql']
    for b in backends:
        for label, expr, ps in shapes(tier):
            if b == 'mysql' and tier != 'thorough' and label in ('4 elements',):
                continue
            es = shape(prog, rep, b, label, expr, ps)
            if es is not None and label == '3 elements' and es == {numbered(edge_term(expr, ps), k) for k in range(6)}:
                wide(prog, rep, b, tier)
    cutoffs(prog, rep)


def nth(xs, k):
    xs, out = list(xs), []
    while xs:
        f = math.factorial(len(xs) - 1)
        out.append(xs.pop(k // f))
        k %= f
    return out


def numbered(E, k):
    """entry of the k-th ordering, numbered as the lexicographic order of positions"""
    parts = []
    for x in nth([text_of(g.a[0]) for g in E.a[0]], k):
        parts += [x, ' ']
    return mkstr(parts + [str(k)])


def wide(prog, rep, b, tier):
    """entries of long edges (a sample of the orderings), read back"""
    for n in (5,) if tier == 'quick' else (5, 6):
        ps = ['p%d' % i for i in range(n)]
        expr = '(%s,)' % ', '.join(ps)
        E = edge_term(expr, ps)
        top = math.factorial(n)
        ks = sorted({0, 1, n - 1, n, top // n - 1, top // n, top // 2, top - 2, top - 1} | {math.factorial(i) + d for i in range(3, n) for d in (-1, 0, 1)}
                    | {(7919 * i * i + 104729) % top for i in range(1, 9)})
        ks = [k for k in ks if k < top]
        order = [numbered(E, k) for k in ks]
        firsts = sorted({nth(ps, k)[0] for k in ks})
        for p in firsts:
            ix = Index(order)
            a = sdrive(prog, b, expr, ps, 'sql.star(%s)' % p, ix, '%s, %d elements: star of %s' % (BACKENDS[b][1], n, p), unroll=1000, max_steps=8000000)
            rep.functions |= a.eng.analysed
            if a.imprecise or ix.unknown:
                rep.undec('%s: %s' % (a.label, a.imprecise or ix.unknown[0]))
                break
            for x in a.exits():
                if x.data['kind'] == 'raise':
                    rep.bad('entry read back', reader_of(a, x), 'star of an edge of %d elements fails' % n)
                    continue
                got = value_set(x.data['value']) if x.data['kind'] == 'r' else set()
                if got is None or any(vague(g) for g in got):
                    rep.undec('%s: result' % a.label)
                    continue
                rep.ok('entries of long edges read back', sum(1 for k in ks if nth(ps, k)[0] == p))
                odd = [g for g in got if g is not E]
                if odd:
                    rep.bad('entry read back', reader_of(a, x), 'an entry of an edge of %d elements is read back as %s' % (n, show(odd[0])[:100]))


def shape(prog, rep, b, label, expr, ps):
    lab = '%s, %s' % (BACKENDS[b][1], label)
    E = edge_term(expr, ps)
    n = len(E.a[0])
    ix = Index(())
    a = sdrive(prog, b, expr, ps, 'sql.add(%s, ts)' % expr, ix, lab + ': add')
    rep.functions |= a.eng.analysed
    if a.imprecise or ix.unknown:
        rep.undec('%s: %s' % (a.label, a.imprecise or ix.unknown[0]))
        return
    try:
        ends, dup = final_entries(a, ())
    except Bad as e:
        rep.undec('%s: %s' % (a.label, e))
        return
    if not ends:
        rep.undec('%s: no successful path' % a.label)
        return
    where = writer_of(a)
    entries = None
    want = orderings(E)
    for ents, nd in ends.items():
        toks = [tokens(x) for x in ents]
        if any(t is None for t in toks):
            rep.undec('%s: entry not understood' % a.label)
            continue
        got = sorted((tuple(t[:-1]) for t in toks), key=str)
        rep.ok('entries written', len(ents))
        if got != want:
            rep.bad('orderings indexed', '%s' % where, 'adding an edge of %s leaves %d entries that do not spell its %d orderings once each (e.g. %s)' % (
                label, len(ents), len(want), '; '.join(entry_show(x) for x in list(ents)[:3]) or 'none'), path_of(nd.where))
            continue
        tags = [t[-1] for t in toks]
        if any(not is_c(t, str) for t in tags) or len(set(tags)) != len(tags) and len(set(ents)) != len(want):
            rep.bad('orderings numbered', where, 'entries of an edge of %s do not carry distinct numbers: %s' % (
                label, ', '.join(show(t) for t in tags[:4])))
            continue
        if entries is None:
            entries = ents
        elif entries != ents:
            rep.bad('orderings indexed', where, 'the entries of an edge of %s depend on the path taken' % label)
    if dup:
        rep.bad('entry inserted twice', '%s' % place(dup[0].where), 'an index entry that exists is inserted again', path_of(dup[0].where))
    if entries is None:
        return
    rep.sample({'edge': expr, 'backend': BACKENDS[b][1], 'entries': [entry_show(e) for e in sorted(entries, key=str)][:6]})
    order = sorted(entries, key=lambda e: (len(tokens(e)), str(show(e))))
    # removal
    ix = Index(order)
    a = sdrive(prog, b, expr, ps, 'sql.remove(%s)' % expr, ix, lab + ': remove')
    rep.functions |= a.eng.analysed
    if a.imprecise or ix.unknown:
        rep.undec('%s: %s' % (a.label, a.imprecise or ix.unknown[0]))
    else:
        other = mkstr([mk('call', E2S, (param('other'),)), ' ', mk('call', E2S, (param('o2'),)), ' 0'])
        try:
            ends, dup = final_entries(a, list(entries) + [other])
            for ents, nd in ends.items():
                rep.ok('entries removed', len(entries))
                left = ents & entries
                if left:
                    rep.bad('entries removed', remover_of(a), 'removing an edge of %s leaves %d of its %d entries (e.g. %s)' % (
                        label, len(left), len(entries), entry_show(list(left)[0])), path_of(nd.where))
                elif other not in ents or len(ents) != 1:
                    rep.bad('entries removed', remover_of(a), 'removing an edge of %s changes entries of other edges' % label)
        except Bad as e:
            rep.undec('%s: %s' % (a.label, e))
    # reading back
    reads = []
    seen = []
    for i, x in enumerate(__import__('ast').parse(expr, mode='eval').body.elts):
        src = __import__('ast').unparse(x)
        if src not in seen:
            seen.append(src)
            reads.append(('star of element %d' % (i + 1), 'sql.star(%s)' % src, False))
    elts = [__import__('ast').unparse(x) for x in __import__('ast').parse(expr, mode='eval').body.elts]
    for k in range(n):
        pat = [x if i != k else 'None' for i, x in enumerate(elts)]
        if any(p != 'None' for p in pat):
            reads.append(('pattern (%s)' % ', '.join(pat), 'sql.pattern2edges((%s,))' % ', '.join(pat), False))
    reads.append(('pattern of wildcards', 'sql.pattern2edges((%s,))' % ', '.join(['None'] * n), False))
    reads.append(('exists', 'sql.exists(%s)' % expr, True))
    for what, call, truth in reads:
        ix = Index(order)
        a = sdrive(prog, b, expr, ps, call, ix, '%s: %s' % (lab, what))
        rep.functions |= a.eng.analysed
        if a.imprecise or ix.unknown:
            rep.undec('%s: %s' % (a.label, a.imprecise or ix.unknown[0]))
            continue
        outs = a.exits()
        for x in outs:
            if x.data['kind'] == 'raise':
                rep.bad('entry read back', reader_of(a, x), '%s of an edge of %s fails: %s' % (what, label, show(x.data['value'])[:80]
                                                                                            if isinstance(x.data['value'], T) else x.data['value']))
                continue
            if x.data['kind'] != 'r':
                continue
            v = x.data['value']
            if truth:
                rep.ok('entries read back')
                if v is C(True):
                    continue
                if is_c(v):
                    rep.bad('entry read back', reader_of(a, x), 'exists() answers %s for a stored edge of %s' % (show(v), label))
                else:
                    rep.undec('%s: result %s' % (a.label, show(v)[:80]))
                continue
            got = value_set(v)
            if got is None:
                rep.undec('%s: result %s' % (a.label, show(v)[:100]))
            else:
                rep.ok('entries read back', len(order))
                if got != {E}:
                    if any(vague(g) for g in got):
                        rep.undec('%s: result %s' % (a.label, show(v)[:100]))
                    else:
                        rep.bad('entry read back', reader_of(a, x), '%s of the stored edge %s gives %s' % (
                            what, expr, '; '.join(sorted(show(g)[:80] for g in got)) or 'nothing'))
    return entries


def entry_show(e):
    return ' '.join(show(x.a[1][0]) if is_call(x, E2S) else (cv(x) if is_c(x, str) else show(x)) for x in (tokens(e) or [e]))


def writer_of(a):
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if st.table == 'perms' and st.kind == 'INSERT':
            return place(nd.where)
    return a.label


def remover_of(a):
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if st.table == 'perms' and st.kind == 'DELETE':
            return place(nd.where)
    return a.label


def reader_of(a, x):
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if st.table == 'perms' and st.kind == 'SELECT':
            return place(nd.where)
    return a.label


def cutoffs(prog, rep):
    """for edges of unknown arity: no constant bounds the number of orderings"""
    for b in BACKENDS:
        for op in ('add', 'remove'):
            a = analyse(prog, b, op)
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            E = param('edge')
            size = mk('len', E)
            for (i, j), fl in a.eng.efacts.items():
                for f in fl:
                    for c, p in f.items():
                        hit = [x for x in walk(c) if x.op in ('lt', 'eq', 'min', 'max') and any(is_int(y) and cv(y) >= 2 for y in x.a if isinstance(y, T))
                               and any(y is size or y.op == 'call' and y.a[0] == 'math.factorial' and y.a[1][0] is size
                                       for z in x.a if isinstance(z, T) for y in [z])]
                        if hit:
                            rep.bad('arity cut-off', '%s: %s' % (a.label, place(a.nodes[j].where) if a.nodes[j].where else 'driver'),
                                    'indexing depends on the arity being beyond a constant: %s' % show(hit[0])[:100], path_of(a.nodes[j].where))
            for n in a.by('exec'):
                st = a.stmt(n)
                if st.table == 'perms' and st.kind in ('INSERT', 'DELETE') and n.data['binds'] is not None:
                    for v in walk(n.data['binds']):
                        if v.op == 'str' and isinstance(str_parts(v)[-1], T):
                            r = coarse(str_parts(v)[-1])
                            if r is not None:
                                rep.bad('ordering number', '%s: %s' % (a.label, place(n.where)), 'different orderings get the same number: %s' % show(r)[:100])
                            else:
                                rep.ok('numbers of unknown arity')
            for n in a.by('loop'):
                rep.ok('loops of unknown arity')
                r = truncated(n.data['coll'], size)
                if r is not None:
                    rep.bad('arity cut-off', '%s: %s' % (a.label, place(n.where)), 'the loop over the orderings is bounded by a constant: %s' % show(r)[:100])
            for (i, j), fl in a.eng.efacts.items():
                for f in fl:
                    for c, p in f.items():
                        if c.op == 'lt' and any(x.op == 'it' for x in c.a) and any(is_int(x) and cv(x) >= 6 for x in c.a):
                            rep.bad('arity cut-off', '%s: %s' % (a.label, place(a.nodes[j].where) if a.nodes[j].where else 'driver'),
                                    'indexing changes after a constant number of turns: %s' % show(c)[:100], path_of(a.nodes[j].where))


    for b in BACKENDS:
        for op in ('star', 'pattern_any'):
            a = analyse(prog, b, op)
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            seen = {}
            for (i, j), fl in a.eng.efacts.items():
                for f in fl:
                    for c in f:
                        seen.setdefault(c, a.nodes[j].where)
            for n in a.nodes:
                for v in n.data.values():
                    if isinstance(v, T):
                        seen.setdefault(v, n.where)
            done = set()
            for c, w in seen.items():
                for x in walk(c):
                    if x in done:
                        continue
                    done.add(x)
                    if x.op == 'call' and x.a[0] == 'int' and any(y.op == 'rows' for y in walk(x)):
                        rep.ok('numbers read')
                    if coarse_read(x):
                        rep.bad('ordering number', '%s: %s' % (a.label, place(w) if w else 'driver'), 'the number of an entry is read as %s' % show(x)[:100])


def coarse_read(x):
    """a constant cuts off the number read from an entry"""
    if x.op == 'bin' and x.a[0] in ('Mod', 'FloorDiv', 'BitAnd', 'RShift') and is_int(x.a[2]) and cv(x.a[2]) >= 2:
        return number_of_row(x.a[1])
    if x.op == 'call' and x.a[0] == 'min':
        els = [y for z in x.a[1] for y in items_of(z)]
        return any(is_int(y) and cv(y) >= 2 for y in els) and any(number_of_row(y) for y in els)
    return False


def number_of_row(x):
    return x.op == 'call' and x.a[0] == 'int' and any(y.op == 'rows' for y in walk(x))


def items_of(z):
    if z.op == 'tuple':
        return [y for g in z.a[0] if g.op == 'one' for y in items_of(g.a[0])]
    return [z]


def coarse(tag):
    """the part of an entry's number that does not tell all orderings apart, or None"""
    for x in walk(tag):
        if x.op == 'bin' and x.a[0] in ('Mod', 'FloorDiv', 'BitAnd') and x.a[1].op == 'it' and is_int(x.a[2]) and cv(x.a[2]) >= 2:
            return x
        if x.op == 'slice' and any(w.op == 'it' for w in walk(x.a[0])) and any(is_int(w) for w in x.a[1:3]):
            return x
        if x.op == 'call' and x.a[0] == 'min' and any(y.op == 'it' for z in x.a[1] for y in items_of(z)):
            return x
    return None


def truncated(c, size):
    """the part of a loop's collection that a constant cuts off, or None"""
    for x in walk(c):
        if x.op == 'call' and x.a[0] == 'min':
            els = [y for z in x.a[1] for y in items_of(z)]
            if any(is_int(y) and cv(y) >= 2 for y in els) and any(w is size for y in els for w in walk(y)):
                return x
        if x.op == 'slice' and is_int(x.a[2]) and cv(x.a[2]) >= 2 and any(w.op in ('permutations', 'range') and any(v is size or v is size.a[0] for v in walk(w)) for w in walk(x.a[0])):
            return x
        if x.op == 'call' and x.a[0] == 'itertools.islice' and any(w is size for w in walk(x)) and any(is_int(w) and cv(w) >= 2 for w in x.a[1][1:]):
            return x
    return None
