"""Symbolic values of the abstract interpreter: hash-consed terms.

A term is an abstract value: it stands for every concrete value the program
expression can have, described by how it is computed from the analysed entry
point's parameters, from database rows and from loop positions.  Terms are
interned, so equality is identity.
"""

_tab = {}


class T(object):
    __slots__ = ('op', 'a', 'uid')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid

    def __reduce__(self):
        return (_rebuild, (self.op,) + self.a)


def _rebuild(op, *a):
    return mk(op, *a)


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.uid = len(_tab)
        _tab[key] = t
    return t


def C(v):
    """Constant."""
    return mk('const', type(v).__name__, repr(v) if isinstance(v, (float, complex)) else v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(t, typ=None):
    if not isinstance(t, T) or t.op != 'const':
        return False
    return typ is None or t.a[0] == typ.__name__


def pyval(t):
    """Python value of constants and tuples of them; ValueError for anything else"""
    if is_c(t):
        return cv(t)
    if t.op == 'tuple' and all(g.op == 'one' for g in t.a[0]):
        return tuple(pyval(g.a[0]) for g in t.a[0])
    raise ValueError


_ground = {}


def ground(t):
    """a text, integer or tuple of such that is completely known: two of them are equal exactly if they are the same term"""
    if not isinstance(t, T):
        return False
    if t.op == 'const':
        return t.a[0] == 'int' or t.a[0] == 'str' and (t.a[1].isascii() or not any(0xF0000 <= ord(c) < 0xF0400 for c in t.a[1]))
    if t.op != 'tuple':
        return False
    r = _ground.get(t)
    if r is None:
        r = all(g.op == 'one' and ground(g.a[0]) for g in t.a[0])
        _ground[t] = r
    return r


def cv(t):
    if t.a[0] in ('float',):
        return float(t.a[1])
    if t.a[0] == 'complex':
        return complex(t.a[1])
    return t.a[1]


def is_int(t):
    return is_c(t) and t.a[0] in ('int', 'bool')


# ------------------------------------------------------------------ strings
def mkstr(parts):
    """String template from literal and term parts."""
    out = []
    for p in parts:
        if isinstance(p, T):
            if p.op == 'const':
                p = str(cv(p))
            elif p.op == 'str':
                for q in p.a[0]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    elif q != '':
                        out.append(q)
                continue
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return C('')
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    if len(out) == 3 and out[0] == '(' and out[2] == ')' and isinstance(out[1], T):
        x = edge_text(out[1])
        if x is not None:
            return x
    return mk('str', tuple(out))


def edge_text(j):
    """the text of an edge, spelled out as the joined texts of all its elements"""
    if j.op == 'call' and j.a[0] == 'gb.hypergraph.edge.nodes2str' and len(j.a[1]) == 1:
        return mk('call', 'gb.hypergraph.edge.edge2str', j.a[1])
    if j.op != 'join' or j.a[0] is not C(' ') or len(j.a[1]) != 1 or j.a[1][0].op != 'many':
        return None
    L, coll, alts = j.a[1][0].a
    if len(alts) != 1 or alts[0][0] or len(alts[0][1]) != 1 or alts[0][1][0].op != 'one':
        return None
    x = alts[0][1][0].a[0]
    if x.op == 'str' and len(x.a[0]) == 1:
        x = x.a[0][0]
    if isinstance(x, T) and x.op == 'call' and x.a[0] == 'gb.hypergraph.edge.edge2str' and x.a[1] == (item(coll, mk('it', L)),):
        return mk('call', 'gb.hypergraph.edge.edge2str', (coll,))
    return None


def unstr(t):
    """Drops the str() around a value: '%s' % x -> x."""
    while isinstance(t, T) and t.op == 'str' and len(t.a[0]) == 1 and isinstance(t.a[0][0], T):
        t = t.a[0][0]
    return t


def str_parts(t):
    if is_c(t, str):
        return (cv(t),)
    if t.op == 'str':
        return t.a[0]
    return (t,)


# ------------------------------------------------------------------ sequences
def one(v):
    return mk('one', v)


def tup(*vs):
    return mk('tuple', tuple(one(v) for v in vs))


def mktuple(segs):
    return mk('tuple', tuple(segs))


def many(L, coll, alts):
    """For each element of coll in order: one of the alternatives.
    alts: tuple of (facts, segs); facts: tuple of (cond, bool)."""
    if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1:
        g = alts[0][1][0]
        if g.op == 'one' and g.a[0] is item(coll, mk('it', L)) and coll.op not in ('range',):
            return mk('spread', coll)
    if all(not segs for _f, segs in alts):
        return None
    return mk('many', L, coll, alts)


def spread(v):
    return mk('spread', v)


def known_len(segs):
    return all(s.op == 'one' for s in segs)


def seg_vals(segs):
    return [s.a[0] for s in segs]


# ------------------------------------------------------------------ items
def item(coll, k):
    """coll[k]; k is a constant, an iteration index ('it', L), or any term."""
    if isinstance(coll, T):
        if coll.op == 'tuple':
            segs = coll.a[0]
            if is_int(k):
                n = cv(k)
                if n >= 0:
                    i = 0
                    for s in segs:
                        if s.op != 'one':
                            break
                        if i == n:
                            return s.a[0]
                        i += 1
                else:
                    i = -1
                    for s in reversed(segs):
                        if s.op != 'one':
                            break
                        if i == n:
                            return s.a[0]
                        i -= 1
            if len(segs) == 1 and segs[0].op == 'spread':
                return item(segs[0].a[0], k)
            if len(segs) == 1 and segs[0].op == 'many':
                L, c, alts = segs[0].a
                if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0].op == 'one':
                    return subst(alts[0][1][0].a[0], {mk('it', L): k})
        elif coll.op == 'range':
            lo, hi, st = coll.a
            if is_c(st) and cv(st) == 1:
                return add(lo, k)
            return add(lo, mul(st, k))
        elif coll.op == 'zip':
            return tup(*[item(c, k) for c in coll.a])
        elif coll.op == 'enum':
            return tup(add(coll.a[1], k), item(coll.a[0], k))
        elif coll.op == 'suffix':
            # suffix(s, n)[k] = s[n+k]
            if not (is_int(k) and cv(k) < 0):
                return item(coll.a[0], add(coll.a[1], k))
        elif coll.op == 'slice':
            b, lo, hi, st = coll.a
            if st is NONE and hi is NONE and is_int(lo) and cv(lo) >= 0 and k.op != 'const':
                return mk('item', b, add(lo, k)) if b.op != 'tuple' else item(b, add(lo, k))
            if st is NONE and is_int(lo) and cv(lo) >= 0 and is_int(k) and cv(k) >= 0 and hi is NONE:
                return item(b, C(cv(lo) + cv(k)))
            if st is NONE and lo is NONE and is_int(k) and hi is NONE:
                return item(b, k)
        elif coll.op == 'const' and coll.a[0] == 'str' and is_int(k):
            try:
                return C(cv(coll)[cv(k)])
            except IndexError:
                pass
        elif coll.op == 'str' and is_int(k):
            p = coll.a[0]
            n = cv(k)
            if n >= 0 and isinstance(p[0], str) and len(p[0]) > n:
                return C(p[0][n])
            if n < 0 and isinstance(p[-1], str) and len(p[-1]) >= -n:
                return C(p[-1][n])
    return mk('item', coll, k)


def add(a, b):
    if is_int(a) and is_int(b):
        return C(cv(a) + cv(b))
    if is_int(a) and cv(a) == 0:
        return b
    if is_int(b) and cv(b) == 0:
        return a
    return lin(((a, 1), (b, 1)))


def sub(a, b):
    if is_int(a) and is_int(b):
        return C(cv(a) - cv(b))
    return lin(((a, 1), (b, -1)))


def mul(a, b):
    if is_int(a) and is_int(b):
        return C(cv(a) * cv(b))
    if is_int(b):
        return lin(((a, cv(b)),))
    if is_int(a):
        return lin(((b, cv(a)),))
    x, y = sorted((a, b))
    return mk('mul', x, y)


def lin(ts):
    """Linear combination, canonical: ('lin', const, ((term, coef), ...))."""
    const = 0
    coefs = {}

    def acc(t, k):
        nonlocal const
        if is_int(t):
            const += cv(t) * k
        elif t.op == 'lin':
            const += t.a[0] * k
            for u, c in t.a[1]:
                coefs[u] = coefs.get(u, 0) + c * k
        else:
            coefs[t] = coefs.get(t, 0) + k

    for t, k in ts:
        acc(t, k)
    items = tuple(sorted(((u, c) for u, c in coefs.items() if c != 0), key=lambda x: x[0].uid))
    if not items:
        return C(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', const, items)


# ------------------------------------------------------------------ substitution
def subst(t, m):
    """Replaces subterms, renormalising."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            y = tuple(go(e) for e in x)
            return y if any(p is not q for p, q in zip(x, y)) else x
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        na = tuple(go(e) for e in x.a)
        if all(p is q for p, q in zip(na, x.a)):
            r = x
        else:
            r = renorm(x.op, na)
        memo[x] = r
        return r
    return go(t)


def alpha(t):
    """Renames the loop ids bound inside t, in order of appearance, so that equal collections are one term."""
    ids = {}
    seen = set()

    def scan(x):
        if isinstance(x, tuple):
            for e in x:
                scan(e)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'many':
                scan(x.a[1])
                ids.setdefault(x.a[0], 'b%d' % len(ids))
            for e in x.a:
                scan(e)
    scan(t)
    if not ids:
        return t
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(e) for e in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'it' and x.a[0] in ids:
                r = mk('it', ids[x.a[0]])
            elif x.op == 'many':
                r = mk('many', ids.get(x.a[0], x.a[0]), go(x.a[1]), go(x.a[2]))
            else:
                na = tuple(go(e) for e in x.a)
                r = x if all(p is q for p, q in zip(na, x.a)) else mk(x.op, *na)
            memo[x] = r
        return r
    return go(t)


def renorm(op, a):
    if op == 'item':
        return item(*a)
    if op == 'str':
        return mkstr(a[0])
    if op == 'lin':
        return lin(tuple((u, c) for u, c in a[1]) + ((C(a[0]), 1),))
    if op == 'mul':
        return mul(*a)
    if op == 'len':
        return length(a[0])
    return mk(op, *a)


def length(t):
    if is_c(t, str):
        return C(len(cv(t)))
    if t.op == 'tuple':
        segs = t.a[0]
        if known_len(segs):
            return C(len(segs))
        r = C(0)
        for s in segs:
            if s.op == 'one':
                r = add(r, C(1))
            elif s.op == 'spread':
                r = add(r, length(s.a[0]))
            elif s.op == 'many' and all(len(x[1]) == 1 and x[1][0].op == 'one' for x in s.a[2]):
                r = add(r, length(s.a[1]))
            else:
                return mk('len', t)
        return r
    if t.op == 'range':
        lo, hi, st = t.a
        if is_int(lo) and is_int(hi) and is_int(st):
            return C(len(range(cv(lo), cv(hi), cv(st))))
        if is_c(lo) and cv(lo) == 0 and is_c(st) and cv(st) == 1:
            return hi
    if t.op == 'enum':
        return length(t.a[0])
    if t.op in ('sorted', 'reversed'):
        return length(t.a[0])
    if t.op == 'suffix':
        return sub(length(t.a[0]), t.a[1])
    return mk('len', t)


# ------------------------------------------------------------------ queries
def walk(t):
    """All subterms."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, sub_):
    return any(x is sub_ for x in walk(t))


def ops(t, *names):
    return [x for x in walk(t) if x.op in names]


def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return '...'
    d = depth + 1
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[1]) if a[0] != 'float' else a[1]
    if o == 'str':
        return "f'" + ''.join(p if isinstance(p, str) else '{' + show(p, d) + '}' for p in a[0]) + "'"
    if o == 'tuple':
        return '(' + ', '.join(show(s, d) for s in a[0]) + ')'
    if o == 'one':
        return show(a[0], d)
    if o == 'spread':
        return '*' + show(a[0], d)
    if o == 'param':
        return a[0]
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'it':
        return 'i%s' % (a[0],)
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'len':
        return 'len(%s)' % show(a[0], d)
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(show(x, d) for x in a[2]))
    if o == 'lin':
        return '(%s)' % ' + '.join(([str(a[0])] if a[0] else []) + ['%s%s' % ('' if c == 1 else '%s*' % c, show(u, d)) for u, c in a[1]])
    if o == 'many':
        return '{for i%s in %s: %s}' % (a[0], show(a[1], d), ' | '.join(show(al[1], d) + (' if ' + show(al[0], d) if al[0] else '') for al in a[2]))
    if o == 'suffix':
        return '%s[%s:]' % (show(a[0], d), show(a[1], d))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
