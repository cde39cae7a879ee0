"""Y02-Y06: symbol and edge texts, over strings whose characters are known by class."""
import itertools
import re

from ..core import *
from ..terms import *
from .. import chars
from ..chars import sent, has_sent

SYM = 'gb.hypergraph.symbol'
EDGE = 'gb.hypergraph.edge'
HEADER = 'import gb.hypergraph.symbol as sym\nimport gb.hypergraph.edge as ed\n'


def setup(prog):
    """characters the analysed source names, made singletons of their own"""
    return chars.refine([prog.modules[m].src for m in (SYM, EDGE) if m in prog.modules])


def value(prog, rep, expr, label, pre='', ps='', exits=False, **o):
    """[(kind, value)] of the outcomes of an expression, or None when it cannot be followed"""
    src = HEADER + '\n\ndef drive(%s):\n%s    return %s\n' % (ps, pre, expr)
    a = An(prog, src, 'drive', label=label, **dict(dict(max_steps=40000), **o))
    rep.functions |= a.eng.analysed
    if a.imprecise:
        rep.undec('%s: %s' % (label, a.imprecise))
        return None
    out = []
    for x in a.exits():
        out.append((x.data['kind'], x.data['value'], x.facts) if exits else (x.data['kind'], x.data['value']))
    return out or None


def py(e):
    """value of a parsed expected result as a term"""
    if isinstance(e, T):
        return e
    if isinstance(e, tuple) or isinstance(e, list):
        return tup(*[py(x) for x in e])
    return C(e)


def evalt(t, ch):
    """concrete value of a term for one choice of characters; raises KeyError for what is not covered"""
    if is_c(t):
        v = cv(t)
        return ch.put(v) if isinstance(v, str) else v
    if t.op == 'call' and t.a[0] in ('int', 'float', 'abs') and len(t.a[1]) == 1:
        return {'int': int, 'float': float, 'abs': abs}[t.a[0]](evalt(t.a[1][0], ch))
    if t.op == 'lin':
        return t.a[0] + sum(k * evalt(u, ch) for u, k in t.a[1])
    if t.op == 'bin' and t.a[0] == 'Mult':
        return evalt(t.a[1], ch) * evalt(t.a[2], ch)
    if t.op == 'tuple' and all(g.op == 'one' for g in t.a[0]):
        return tuple(evalt(g.a[0], ch) for g in t.a[0])
    raise KeyError(t.op)


def equal(got, want):
    """True, False or None (cannot tell) for a result and the expected term"""
    if got is want:
        return True
    try:
        for j in range(chars.ROUNDS):
            a, b = evalt(got, chars.Choice(j)), evalt(want, chars.Choice(j))
            if not alike(a, b):
                return False
        return True
    except KeyError:
        return apart(got, want)
    except (ValueError, TypeError):
        return False


def apart(got, want):
    """False if a text with unknown pieces can never be the expected constant, else None"""
    if got.op == 'str' and is_c(want, str):
        p = str_parts(got)
        if any(isinstance(x, T) and x.op == 'tuple' for x in p):
            return False        # what Python prints for a collection has commas or brackets
        w = cv(want)
        lits = [x for x in p if isinstance(x, str)]
        if sum(len(x) for x in lits) > len(w):
            return False
        if isinstance(p[0], str) and chars.same(p[0], w[:len(p[0])]) is False:
            return False
        if isinstance(p[-1], str) and chars.same(p[-1], w[len(w) - len(p[-1]):]) is False:
            return False
    return None


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def pretty(t):
    if is_c(t, str):
        return repr(chars.show(cv(t)))
    if t.op == 'tuple' and all(g.op == 'one' for g in t.a[0]):
        return '(%s)' % ', '.join(pretty(g.a[0]) for g in t.a[0])
    if t.op == 'call':
        return '%s(%s)' % (t.a[0], ', '.join(pretty(x) for x in t.a[1]))
    return chars.show(show(t))[:100]


# ------------------------------------------------------------------ Y06
def token_alphabet(lits, wide):
    base = [sent('digit'), '-', '.', 'e', '+', '_', sent('letter'), sent('udigit'), sent('sup')]
    more = ['0', '9', 'E', ',', 'x', sent('punct'), sent('low'), sent('wide'), sent('upper')]
    more += sorted(c for c in lits if not c.isspace() and c not in '()' and c not in base and c not in more)
    return base + more if wide else base


def renumber(t):
    """distinct indices for the characters of a class in a token"""
    n = {}
    out = ''
    for c in t:
        if chars.is_sent(c):
            k = chars.cls_of(c)[0]
            out += sent(k, n.get(k, 0))
            n[k] = n.get(k, 0) + 1
        else:
            out += c
    return out


def token_kind(tok):
    """what the property says a token is"""
    d = ''.join('d' if (c in '0123456789' or chars.is_sent(c) and chars.cls_of(c)[0] == 'digit') else ('x' if c == 'd' else c) for c in tok)
    if re.fullmatch(r'-?d+', d):
        return 'int'
    if re.fullmatch(r'-?(d+\.d*|\.d+)', d):
        return 'float'
    return 'str'


def tokens_of(lits, tier):
    wide = token_alphabet(lits, True)
    base = token_alphabet(lits, False)
    seen = set()
    for alpha, n in ((wide, 1), (wide, 2), (base, 3), (base[:4], 4), (base[:3], 5)):
        if tier == 'thorough' and n in (3, 4):
            alpha = {3: wide, 4: base}[n]
        for t in itertools.product(alpha, repeat=n):
            t = renumber(''.join(t))
            if t not in seen:
                seen.add(t)
                yield t
    D = [sent('digit', i) for i in range(24)]
    for t in (''.join(D), '-' + ''.join(D), ''.join(D[:6]) + '.' + ''.join(D[:6]), '-' + ''.join(D[:6]) + '.' + ''.join(D[:6]), 'nan', 'inf', '-inf', 'infinity', 'NaN', '0x1f',
              ''.join(D) + L, ''.join(D) + '-', ''.join(D) + '..', '.' + ''.join(D), ''.join(D) + '.', ''.join(D) + '.' + ''.join(D), '0.' + ''.join(D) + L, L * 40, '-' * 30,
              '.' * 30, ''.join(D) * 4, '-' + ''.join(D) * 4 + '.', '1e5', '1e-5', '1.5e3', '1_000', '0b1', '--1', '1.2.3', '1-2', '2016-01-01', '1.0.0', '~1', '1/2', '0', '00', '-0', '0.0', '007', 'True', 'None'):
        if t not in seen:
            yield t


def typed(tok):
    k = token_kind(tok)
    if k == 'str':
        return C(tok)
    if has_sent(tok):
        return mk('call', k, (C(tok),))
    return C(int(tok) if k == 'int' else float(tok))


def y06(prog, rep, tier):
    rep.rules.append('abstract interpretation of the edge reader on every token of bounded length over character classes: integer, float, string as defined, never an error')
    lits = setup(prog)
    for tok in tokens_of(lits, tier):
        forms = [('(b %s)', lambda v: tup(C('b'), v))]
        if len(tok) <= 2:
            forms += [('(%s b)', lambda v: tup(v, C('b'))), ('(b (%s c))', lambda v: tup(C('b'), tup(v, C('c'))))]
        for f, w in forms:
            text = f % tok
            outs = value(prog, rep, 'ed.str2edge(%r)' % text, 'reading %s' % chars.show(text))
            if outs is None:
                continue
            judge(rep, outs, w(typed(tok)), tok, text)


def judge(rep, outs, want, tok, text):
    k = token_kind(tok)
    cons = 'tokens read as %s' % {'int': 'integers', 'float': 'floats', 'str': 'symbols'}[k]
    for kd, v in outs:
        if kd == 'raise':
            rep.bad('the reader fails', cons, 'reading %s raises %s' % (chars.show(text), show(v)[:60]))
            continue
        e = equal(v, want)
        if e:
            rep.ok('tokens')
        elif e is None and vague(v):
            rep.undec('reading %s gives %s' % (chars.show(text), show(v)[:80]))
        elif e is None:
            rep.undec('reading %s gives %s' % (chars.show(text), show(v)[:80]))
        else:
            rep.bad('token misread', cons, '%s is read as %s instead of %s' % (chars.show(text), pretty(v), pretty(want)))


# ------------------------------------------------------------------ Y02
RESERVED = '/()'


def odd_texts():
    """long runs, texts that read like URLs or numbers, characters whose other forms are longer, capital or reserved"""
    out = [c * 260 for c in ('/', '(', ')', ' ', '\u00a0', '\n')] + [sent('letter') * 260 + c for c in '/ )']
    out += ['http://q/r', 'https://q/r (t)', 'HTTP://q/R', 'http://', 'file:///q', '12.5', '-7', '(q r)', '~(q)', 'q/r/t', '()', '(/)', ' / ']
    out += [c for c in '\uab70\u13a0\ufb01\u00df\u03a3\u0149\u01f0\u0390\u01c4\u01c6\u1d2c\u24b6\u2160\uff21'
            '\uff0f\uff08\uff09\u2100\u2474\u2044\u2215\u29f8\u207d\u208e\ufe59\u00a8\u2003\u3000\u180e\ufeff\u2060\u00ad']
    out += ['\u0391\u03a3', 'I\u0307', 'q\u0300', 'q\u2474', '\U00010400', '\U0001d400']
    return out


def y02(prog, rep, tier):
    rep.rules.append('abstract interpretation of the conversion on every text of bounded length over character classes: no reserved character, blank or upper-case '
                     'letter can be in the result')
    lits = setup(prog)
    alpha = [sent('letter'), sent('upper'), sent('digit'), ' ', '\t', '\n', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0', sent('ublank'), '/', '(', ')', '_', '~', '.', '-',
             sent('punct'), sent('wide'), '\u0130', '\u01c5', '\u1e9e', '\u200b', '"', "'"]
    alpha += sorted(c for c in lits if c not in alpha)
    core = [sent('letter'), sent('upper'), ' ', '\n', sent('ublank'), '/', '(', ')']
    seen = set()
    plan = [(alpha, 1), (alpha, 2), (core, 3), (['/', '(', ')', ' ', sent('upper')], 4)]
    if tier == 'thorough':
        plan = [(alpha, 1), (alpha, 2), (alpha[:20], 3), (core, 4), (core[2:], 5)]
    for texts in [(''.join(t) for t in itertools.product(al, repeat=n)) for al, n in plan] + [odd_texts()]:
        for t in texts:
            t = renumber(t)
            if t in seen:
                continue
            seen.add(t)
            outs = value(prog, rep, 'sym.str2symbol(%r)' % t, 'converting %r' % chars.show(t)[:200], unroll=400)
            if outs is None:
                continue
            for kd, v in outs:
                if kd == 'raise':
                    rep.bad('conversion fails', 'str2symbol', 'converting %r raises %s' % (chars.show(t), show(v)[:60]))
                    continue
                if not is_c(v, str):
                    rep.undec('converting %r gives %s' % (chars.show(t), show(v)[:60]))
                    continue
                bad = None
                for j in range(chars.ROUNDS):
                    s = chars.Choice(j).put(cv(v))
                    if any(c in RESERVED for c in s):
                        bad = 'a reserved character is left'
                    elif any(c.isspace() for c in s):
                        bad = 'white space is left'
                    elif s != s.lower():
                        bad = 'it is not lower case'
                    elif not s:
                        bad = 'nothing is left'
                if bad:
                    rep.bad(bad, 'str2symbol', '%r becomes %r' % (chars.show(t), chars.show(cv(v))))
                else:
                    rep.ok('texts')


# ------------------------------------------------------------------ Y03
L, U, D = sent('letter'), sent('upper'), sent('digit')


def kinds_of(prog, rep, expr, want, what, ps='', pre=''):
    outs = value(prog, rep, 'sym.sym_type(%s) == sym.SymbolType.%s' % (expr, want), 'type of %s' % what, pre, ps)
    verdict(rep, outs, TRUE, 'sym_type', 'the type of %s' % what, 'is not %s' % want)


def verdict(rep, outs, want, cons, what, msg=None):
    if outs is None:
        return
    for kd, v in outs:
        if kd == 'raise':
            rep.bad('fails', cons, '%s: raises %s' % (what, show(v)[:60]))
            continue
        e = equal(v, want)
        if e:
            rep.ok(cons)
        elif e is None:
            rep.undec('%s: %s' % (what, show(v)[:80]))
        else:
            rep.bad('wrong result', cons, '%s %s' % (what, msg or 'gives %s instead of %s' % (pretty(v), pretty(want))))


def y03(prog, rep, tier):
    rep.rules.append('abstract interpretation of the symbol functions on symbols built from up to four parts, URLs, numbers and edges, characters known by class')
    lits = setup(prog)
    pool = [L + sent('letter', 1), D, L, '~' + L, L + '.' + D, '-' + L, U + L, '_', sent('wide'), 'http:', 'https:', 'http', ':', L + ':', '']
    pool += sorted(c for c in lits if c not in '/ ()' and c not in pool)[:12]
    lists = [[p] for p in pool if p]
    lists += [list(x) for x in itertools.product(pool, repeat=2)]
    some = pool[:5] + ['', 'http:']
    lists += [list(x) for x in itertools.product(some if tier == 'thorough' else some[:4], repeat=3)]
    lists += [list(x) for x in itertools.product(some[:5] if tier == 'thorough' else some[:2], repeat=4)]
    lists += [[L + D] * n for n in (5, 9, 20, 40)] + [[L * 200], [L * 200, D], [L, D * 200], ['', '', '', '', '', '']]
    for pts in lists:
        text = '/'.join(pts)
        if text.startswith('http://') or text.startswith('https://') or not text:
            continue
        what = repr(chars.show(text))
        verdict(rep, value(prog, rep, 'sym.build(%r)' % (pts,), 'building %s' % what), C(text), 'build', 'building the parts of %s' % what)
        concept(prog, rep, text, pts, what)
    for url in ['http://' + L, 'https://' + L, 'http://' + L + '/' + D, 'https://' + L + '/' + L + '/', 'http://', 'https://', 'http://' + L + '.' + L + ':' + D, 'https:///', 'http://https://' + L]:
        what = chars.show(url)
        kinds_of(prog, rep, repr(url), 'URL', what)
        whole(prog, rep, repr(url), C(url), what)
    for near in ['http:/' + L, 'https:/' + L + '/' + D, 'ftp://' + L, L + 'http://' + L, 'HTTP://' + L, 'http//' + L, 'https', 'http:', 'http', 'httpx://' + L, ' http://' + L,
                 'www.' + L, L + '://' + L, 'HTTPS://' + L, '~http://' + L, 'https/' + L, 'http/1']:
        concept(prog, rep, near, near.split('/'), repr(chars.show(near)))
    for expr, k, t in (('5', 'INTEGER', C(5)), ('-5', 'INTEGER', C(-5)), ('0', 'INTEGER', C(0)), ('2.5', 'FLOAT', C(2.5)), ('-0.5', 'FLOAT', C(-0.5)), ('0.0', 'FLOAT', C(0.0)),
                       ("('a', 'b')", 'EDGE', tup(C('a'), C('b'))), ("('a/1', ('b/2', 'c'))", 'EDGE', tup(C('a/1'), tup(C('b/2'), C('c')))), ("['a/1', 'b']", 'EDGE', tup(C('a/1'), C('b'))),
                       ("()", 'EDGE', tup())):
        kinds_of(prog, rep, expr, k, expr)
        whole(prog, rep, expr, t, expr)
    for p, typ, k in (('n', 'int', 'INTEGER'), ('x', 'float', 'FLOAT')):
        pre = '    assume(isinstance(%s, %s))\n' % (p, typ)
        kinds_of(prog, rep, p, k, 'any %s' % typ, p, pre)
        verdict(rep, value(prog, rep, 'sym.parts(%s)' % p, 'parts of any %s' % typ, pre, p), tup(param(p)), 'parts', 'the parts of any %s' % typ)
        verdict(rep, value(prog, rep, 'sym.root(%s)' % p, 'root of any %s' % typ, pre, p), param(p), 'root', 'the root of any %s' % typ)


def whole(prog, rep, expr, t, what):
    """never split"""
    verdict(rep, value(prog, rep, 'sym.parts(%s)' % expr, 'parts of %s' % what), tup(t), 'parts', 'the parts of %s' % what)
    verdict(rep, value(prog, rep, 'sym.root(%s)' % expr, 'root of %s' % what), t, 'root', 'the root of %s' % what)
    verdict(rep, value(prog, rep, 'sym.nspace(%s)' % expr, 'namespace of %s' % what), NONE, 'nspace', 'the namespace of %s' % what)
    verdict(rep, value(prog, rep, 'bool(sym.is_root(%s))' % expr, 'is %s a root' % what), TRUE, 'is_root', 'asking whether %s is a root' % what)


def concept(prog, rep, text, pts, what):
    e = repr(text)
    kinds_of(prog, rep, e, 'CONCEPT', what)
    verdict(rep, value(prog, rep, 'sym.parts(%s)' % e, 'parts of %s' % what), tup(*[C(p) for p in pts]), 'parts', 'the parts of %s' % what)
    verdict(rep, value(prog, rep, 'sym.root(%s)' % e, 'root of %s' % what), C(pts[0]), 'root', 'the root of %s' % what)
    verdict(rep, value(prog, rep, 'sym.nspace(%s)' % e, 'namespace of %s' % what), C(pts[1]) if len(pts) > 1 else NONE, 'nspace', 'the namespace of %s' % what)
    verdict(rep, value(prog, rep, 'bool(sym.is_root(%s))' % e, 'is %s a root' % what), C(len(pts) == 1), 'is_root', 'asking whether %s is a root' % what)
    for pre in (('', 'x') if len(pts) < 3 else ('',)):
        outs = value(prog, rep, 'sym.new_meaning(%s%s)' % (e, ', %r' % pre if pre else ''), 'a new meaning of %s' % what, opaque=no_hash)
        if outs is None:
            continue
        for kd, v in outs:
            if kd == 'raise':
                rep.bad('fails', 'new_meaning', 'giving %s a new meaning raises %s' % (what, show(v)[:60]))
            elif len(pts) > 1:
                verdict(rep, [(kd, v)], C(text), 'new_meaning', 'giving a new meaning to %s' % what)
            else:
                p = str_parts(v)
                lit = text + '/' + pre
                if isinstance(p[0], str) and p[0].startswith(lit) and '/' not in p[0][len(lit):] and (len(p) > 1 or len(p[0]) > len(lit)):
                    rep.ok('new_meaning')
                elif isinstance(p[0], str) or vague(v) is False:
                    rep.bad('wrong result', 'new_meaning', 'the new meaning of %s is %s' % (what, pretty(v)))
                else:
                    rep.undec('the new meaning of %s is %s' % (what, show(v)[:80]))


def no_hash(fi):
    if fi.mod.name == SYM and fi.qual in ('random_hash', 'hashed'):
        return 'pure'
    return None


# ------------------------------------------------------------------ Y04
def y04(prog, rep, tier):
    rep.rules.append('abstract interpretation of the negation functions on symbols of bounded length over character classes and on edges of up to four elements')
    lits = setup(prog)
    alpha = ['~', L, D, '/', '-', '_', U, sent('wide'), '.', '!', sent('punct')] + sorted(c for c in lits if not c.isspace() and c not in '()~/-_.')[:10]
    n = 4 if tier == 'thorough' else 3
    syms = []
    seen = set()
    for k in range(1, n + 1):
        for t in itertools.product(alpha if k <= 2 else alpha[:4 if k == 3 else 3], repeat=k):
            t = renumber(''.join(t))
            if t not in seen:
                seen.add(t)
                syms.append(t)
    syms += [L * 150, '~' + L * 150, L * 150 + '~', '~' * 40]
    for t in syms:
        w = repr(chars.show(t))
        neg = t.startswith('~')
        verdict(rep, value(prog, rep, 'bool(sym.is_negative(%r))' % t, 'is %s negative' % w), C(neg), 'symbol.is_negative', 'asking whether %s is negative' % w)
        if t != '~':
            verdict(rep, value(prog, rep, 'sym.negative(%r)' % t, 'negating %s' % w), C(t[1:] if neg else '~' + t), 'symbol.negative', 'negating %s' % w)
            if not t.startswith('~~'):
                verdict(rep, value(prog, rep, 'sym.negative(sym.negative(%r))' % t, 'negating %s twice' % w), C(t), 'symbol.negative', 'negating %s twice' % w)
    firsts = [L + L, '~' + L, '~~' + L, L + '~', L + '/' + D, '~' + L + '/' + D]
    rests = [[L] * 30 + ['~' + D, D], [L], ['~' + L], [L, D], ['~' + L, L + '~'], [(L, '~' + D)], [('~' + L, D), L], [L, '~' + L, D], [12], [2.5, '~' + L]]
    for f in firsts:
        for r in rests:
            E = (f,) + tuple(r)
            w = pretty(py(E))
            neg = f.startswith('~')
            verdict(rep, value(prog, rep, 'bool(ed.is_negative(%r))' % (E,), 'is %s negative' % w), C(neg), 'edge.is_negative', 'asking whether %s is negative' % w)
            verdict(rep, value(prog, rep, 'ed.negative(%r)' % (E,), 'negating %s' % w), py((f[1:] if neg else '~' + f,) + tuple(r)), 'edge.negative', 'negating %s' % w)
            if not f.startswith('~~'):
                verdict(rep, value(prog, rep, 'ed.negative(ed.negative(%r))' % (E,), 'negating %s twice' % w), py(E), 'edge.negative', 'negating %s twice' % w)


# ------------------------------------------------------------------ Y05
LEAVES = [L + sent('letter', 1), L + '/' + D, '~' + L, 'x' + sent('letter', 2), sent('wide') + L, L + '_' + L, "it's", D + L, L + '-' + D]


def trees(tier):
    """edge shapes: nested tuples of leaf slots"""
    x = '*'
    two = [(x, x), (x, x, x)]
    out = [(x, x), (x, x, x), (x, x, x, x)]
    deep2 = [(x, a) for a in two] + [(a, x) for a in two] + [(a, b) for a in two for b in two] + [(x, a, x) for a in two] + [(x, x, a) for a in two] + \
            [(a, x, x) for a in two] + [(x, two[0], two[0]), (two[0], x, two[0]), (two[0], two[0], x), (two[0], two[0], two[0]), (x, two[0], x, two[0])]
    out += deep2
    d3 = [(x, (x, (x, x))), ((x, (x, x)), x), (((x, x), x), x), (x, ((x, x), x)), (((x, x), x), (x, (x, x))), (x, (x, (x, x), x), x), ((x, (x, x)), ((x, x), x)),
          (x, ((x, x), (x, x))), (((x, x), (x, x)), x), (x, (x, (x, (x, x)))), ((((x, x), x), x), x), (x, (((x, x), x), x)), ((x, ((x, (x, x)), x)), x)]
    out += d3
    if tier == 'thorough':
        out += [(x, a) for a in deep2] + [(a, x) for a in deep2] + [(x, a, x) for a in deep2[:10]] + [(a, b) for a in deep2[:6] for b in deep2[:6]] + [(x,) * n for n in (5, 6, 8)]
        out += [(x, a) for a in d3] + [(a, x) for a in d3]
    return out


def fill(shape, it):
    return tuple(next(it) if s == '*' else fill(s, it) for s in shape)


def text_form(e):
    if isinstance(e, (tuple, list)):
        return '(%s)' % ' '.join(text_form(x) for x in e)
    return str(e)


def y05(prog, rep, tier):
    rep.rules.append('abstract interpretation of the edge writer and the edge reader on edges of every small shape, characters known by class; form of the number notation')
    setup(prog)
    shapes = trees(tier)
    for i, sh in enumerate(shapes):
        for off in ((0,) if tier != 'thorough' and i > 12 else (0, 3, 5)):
            leaves = LEAVES[off:] + LEAVES[:off]
            E = fill(sh, itertools.cycle(leaves))
            txt = text_form(E)
            w = chars.show(txt)
            write(prog, rep, repr(E), C(txt), w)
            verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % txt, 'reading %s' % w), py(E), 'reader', 'reading %s' % w)
            nums = fill(sh, itertools.cycle([12, L, -3, 2.5, D + L, 0, '~' + L, -0.5]))
            nt = text_form(nums)
            verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % nt, 'reading %s' % chars.show(nt)), py(nums), 'reader', 'reading %s' % chars.show(nt))
    # long and deep edges
    deep = shallow = (L, D + L)
    for i in range(14):
        deep, shallow = (L, deep), (shallow, L)
    for E in ((L, D + L, '~' + L) * 14, deep, shallow, (deep, shallow), (L, deep, D + L), (L, (L, D + L) * 15, shallow), (L * 300, D + L), tuple((L, D + L) for _i in range(15)) + (L,)):
        t = text_form(E)
        w = chars.show(t)[:100]
        verdict(rep, value(prog, rep, 'ed.edge2str(%r)' % (E,), 'writing %s' % w, unroll=400, max_steps=400000, struct_depth=40, rec_depth=40), C(t), 'writer', 'writing %s' % w)
        verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % t, 'reading %s' % w, unroll=400, max_steps=400000, struct_depth=40, rec_depth=40), py(E), 'reader', 'reading %s' % w)
    # lists are edges too, at every level
    for e, t in ((['a', 'b'], '(a b)'), (['a', ['b', 'c']], '(a (b c))'), (('a', ['b', ('c', 'd')]), '(a (b (c d)))'), ([('a', 'b'), 'c'], '((a b) c)')):
        write(prog, rep, repr(e), C(t), t)
    for t, e in (('a b', ('a', 'b')), ('a b c', ('a', 'b', 'c')), ('a (b c)', ('a', ('b', 'c'))), ('a (b (c d)) 5', ('a', ('b', ('c', 'd')), 5))):
        verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % t, 'reading %s' % t), py(e), 'reader', 'reading %s' % t)
    # repeated elements and runs of blanks
    for E in (('a', 'b', 'b'), ('a', 'a'), ('a', ('b', 'b')), (('a', 'b'), ('a', 'b')), ('a', ('b', 'c'), ('b', 'c')), ('a', 5, 5), ('a', 'b', ('c', 'b'), 'b')):
        t = text_form(E)
        write(prog, rep, repr(E), C(t), t)
        verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % t, 'reading %s' % t), py(E), 'reader', 'reading %s' % t)
    for t, e in (('(a  b)', ('a', 'b')), ('(a b   c)', ('a', 'b', 'c')), ('(a  (b c))', ('a', ('b', 'c'))), ('((a b)  c)', (('a', 'b'), 'c')), ('(a (b  c))', ('a', ('b', 'c'))),
                 ('a  b', ('a', 'b'))):
        verdict(rep, value(prog, rep, 'ed.str2edge(%r)' % t, 'reading %r' % t), py(e), 'reader', 'reading %r' % t)
    # elements of unknown text stay as they are
    for E, ps, parts in (('(a, b)', 'ab', '(a b)'), ('(a, (b, c))', 'abc', '(a (b c))'), ('((a, b), c)', 'abc', '((a b) c)'), ('(a, (b, (c, d)), e)', 'abcde', '(a (b (c d)) e)')):
        pre = ''.join('    assume(isinstance(%s, str))\n    assume(%s)\n' % (p, p) for p in ps)
        want = mkstr([param(c) if c in ps else c for c in parts])
        outs = value(prog, rep, 'ed.edge2str(%s)' % E, 'writing %s' % E, pre, ', '.join(ps))
        template(rep, outs, want, 'writing %s' % E)
    numbers(prog, rep)


def write(prog, rep, expr, want, w):
    verdict(rep, value(prog, rep, 'ed.edge2str(%s)' % expr, 'writing %s' % w), want, 'writer', 'writing %s' % w)


def template(rep, outs, want, what):
    if outs is None:
        return
    for kd, v in outs:
        if kd == 'raise':
            rep.bad('fails', 'writer', '%s: raises %s' % (what, show(v)[:60]))
        elif v is want:
            rep.ok('writer')
        elif v.op in ('str', 'const') and all(isinstance(p, str) or p.op in ('param', 'const') for p in str_parts(v)):
            rep.bad('wrong result', 'writer', '%s gives %s instead of %s' % (what, show(v)[:80], show(want)[:80]))
        elif any(x.op == 'mcall' and x.a[1] in ('lower', 'upper', 'strip', 'replace', 'lstrip', 'rstrip', 'title', 'casefold') for x in walk(v)):
            rep.bad('wrong result', 'writer', '%s changes the text of the elements: %s' % (what, show(v)[:100]))
        else:
            rep.undec('%s: %s' % (what, show(v)[:100]))


def numbers(prog, rep):
    for typ in ('int', 'float'):
        pre = '    assume(isinstance(x, %s))\n' % typ
        for E, before, after in (("('a', x)", '(a ', ')'), ("(x, 'b')", '(', ' b)'), ("('a', ('b', x))", '(a (b ', '))'), ("x", '', '')):
            outs = value(prog, rep, 'ed.edge2str(%s)' % E, 'writing %s with any %s' % (E, typ), pre, 'x', exits=True)
            if outs is None:
                continue
            for kd, v, facts in outs:
                if kd == 'raise':
                    rep.bad('fails', 'number notation', 'writing any %s raises %s' % (typ, show(v)[:60]))
                    continue
                p = list(str_parts(v))
                if before and (not isinstance(p[0], str) or p.pop(0) != before) or after and (not isinstance(p[-1], str) or p.pop() != after) or len(p) != 1:
                    if vague(v):
                        rep.undec('writing %s: %s' % (E, show(v)[:80]))
                    else:
                        rep.bad('wrong result', 'writer', 'writing %s with any %s gives %s' % (E, typ, show(v)[:100]))
                    continue
                r = notation(p[0], typ)
                if r is not True and typ == 'float' and plain_range(facts) and is_plain(p[0]):
                    r = True
                if r is True:
                    rep.ok('number notation')
                elif r is None:
                    rep.undec('notation of any %s: %s' % (typ, show(p[0])[:80]))
                else:
                    rep.bad('number notation', '%s written' % typ, r)


def plain_range(facts):
    """the size of x is known to be in the range that str() writes without exponent"""
    lo = hi = False
    for c, val in facts.items():
        if c.op != 'lt':
            continue
        a, b = c.a
        size = lambda t: t.op == 'call' and t.a[0] in ('abs', 'math.fabs', 'numpy.abs') and t.a[1] == (param('x'),)
        num = lambda t: is_c(t) and isinstance(cv(t), (int, float))
        if size(a) and num(b):          # |x| < b
            if val and cv(b) <= 1e16:
                hi = True
            elif not val and cv(b) >= 1e-4:
                lo = True
        elif size(b) and num(a):        # a < |x|
            if val and cv(a) >= 1e-4:
                lo = True
            elif not val and cv(a) < 1e16:
                hi = True
    return lo and hi


def is_plain(t):
    u = unstr(t) if isinstance(t, T) else t
    return isinstance(u, T) and (u is param('x') or u.op == 'call' and u.a[0] in ('repr', 'str') and u.a[1][:1] == (param('x'),))


def notation(t, typ):
    """True, None or what is wrong with the text of a number"""
    x = param('x')
    u = unstr(t) if isinstance(t, T) else t
    if not isinstance(u, T):
        return 'any %s is written as %r' % (typ, u)
    while u.op == 'call' and u.a[0] in ('repr', 'str') and typ == 'int' and len(u.a[1]) == 1:
        u = unstr(u.a[1][0])
    if typ == 'int':
        if u is x or u.op == 'fmt' and u.a[0] is x and u.a[1] in ('d', 'i'):
            return True
        if u.op == 'call' and u.a[0] == 'numpy.format_float_positional':
            return 'an integer is written with a decimal point, so that it is read back as a float'
        if u.op == 'mcall' and u.a[1] == 'format' and x in u.a[2] and is_c(u.a[0], str) and any(c in cv(u.a[0]) for c in ',_+ %bxoXcn'):
            return 'an integer is written in a notation the reader does not take for it: %s' % show(u)[:60]
        if u.op == 'fmt' and u.a[0] is x and u.a[1][-1] in 'feg' or u.op == 'call' and u.a[0] == 'float':
            return 'an integer is written in a float notation'
        return None
    if u is x or u.op == 'call' and u.a[0] in ('repr', 'str') and u.a[1][:1] == (x,):
        return 'a float is written as str() gives it, with an exponent for large and small values, which the reader takes for a symbol'
    if u.op == 'call' and u.a[0] == 'numpy.format_float_positional':
        kw = dict(u.a[2]) if len(u.a) > 2 else {}
        arg = u.a[1][0]
        while arg.op == 'call' and arg.a[0] in ('float',) and len(arg.a[1]) == 1:
            arg = arg.a[1][0]
        if arg is not x:
            if any(y.op == 'call' and y.a[0] in ('round', 'int', 'numpy.round', 'numpy.float32', 'numpy.float16') for y in walk(arg)):
                return 'digits of a float are dropped before it is written: %s' % show(arg)
            return None
        if len(u.a[1]) > 1 and u.a[1][1] is not NONE or 'precision' in kw and kw['precision'] is not NONE:
            return 'a float is cut to a fixed number of digits'
        if 'unique' in kw and kw['unique'] is FALSE:
            return 'a float is not written with the digits that identify it'
        if any(k in kw and cv(kw[k]) for k in ('pad_left', 'pad_right') if k in kw and is_c(kw[k])):
            return 'blanks are put around a float'
        if 'sign' in kw and kw['sign'] is TRUE:
            return 'a positive float is written with a sign, which the reader takes for a symbol'
        if 'trim' in kw and not is_c(kw['trim'], str):
            return None
        if 'trim' in kw and cv(kw['trim']) == '-':
            return 'a float without fraction is written without decimal point, so that it is read back as an integer'
        return True
    if u.op == 'fmt' and u.a[0] is x:
        return 'a float is written with the format %%%s, which drops digits or uses an exponent' % u.a[1]
    if u.op == 'mcall' and u.a[1] == 'format' and x in u.a[2]:
        return 'a float is written through a format that drops digits or uses an exponent: %s' % show(u)[:60]
    if u.op == 'call' and u.a[0] in ('int', 'round'):
        return 'the fraction of a float is dropped'
    if u.op == 'call' and u.a[0] == 'format':
        return 'a float is written through a format that drops digits or uses an exponent: %s' % show(u)[:60]
    return None
