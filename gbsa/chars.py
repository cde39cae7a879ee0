"""Character classes: strings of known length whose characters are only known by class.

A character of a class is written as one private code point ("sentinel"): class number and a running index.  Everything a
program does with such a string by position (slicing, joining, iterating) is exact; what depends on which character it is
(comparisons, str methods, conversions, regular expressions) is evaluated for several choices of members of the classes and
holds only when all choices agree, characters being mapped back to their sentinels.
"""
import re

BASE = 0xF0000
STEP = 64

CLASSES = ['digit', 'letter', 'upper', 'lowered', 'udigit', 'sup', 'blank', 'ublank', 'punct', 'low', 'wide', 'caseless']
MEMBERS = {
    'digit': '12345678',                    # 0 and 9 are taken out when the source names them
    'letter': 'qwrtyuop',                   # e, f, i, a, x, m, c, d, s stay out: they have a role in numbers, patterns or sources
    'upper': 'GHJKLZVB',
    'lowered': 'ghjklzvb',
    'udigit': '\u0663\u0967\u09e9\u0666\u0664\uff15\uff17\u06f2',    # decimal digits of other scripts
    'sup': '\u00b2\u00b3\u00b9\u2074\u2075\u2076\u2077',             # digits that int() does not take
    'blank': '\t\n\r\x0b\x0c',
    'ublank': '\u00a0\u2003\u3000\u2009\u2028\u0085\u1680',
    'punct': ';?@<=>',
    'low': '!#%*&$',
    'wide': '\u00e9\u0436\u03b4\u4e2d\u05d0\u00f1',
    'caseless': '\u4e2d\u05d0\u0e01\u3042',
}
ROUNDS = 4


def sent(cls, i=0):
    return chr(BASE + CLASSES.index(cls) * STEP + i % STEP)


def is_sent(c):
    return BASE <= ord(c) < BASE + STEP * len(CLASSES)


def has_sent(s):
    return isinstance(s, str) and not s.isascii() and any(is_sent(c) for c in s)


def cls_of(c):
    k = ord(c) - BASE
    return CLASSES[k // STEP], k % STEP


def members(cls, drop=''):
    m = ''.join(c for c in MEMBERS[cls] if c not in drop)
    return m or MEMBERS[cls]


class Choice(object):
    """one choice of members"""

    def __init__(self, j, avoid=frozenset()):
        self.j = j
        self.avoid = avoid
        self.back = {}

    def of(self, c):
        cls, i = cls_of(c)
        m = MEMBERS[cls]
        if self.avoid:
            m = ''.join(x for x in m if x not in self.avoid and x.lower() not in self.avoid and x.upper() not in self.avoid) or m
        r = m[(i + self.j * 3) % len(m)]
        self.back.setdefault(r, c)
        if cls == 'upper':
            self.back.setdefault(r.lower(), sent('lowered', i))
        if cls == 'lowered':
            self.back.setdefault(r.upper(), sent('upper', i))
        return r

    def put(self, s):
        return ''.join(self.of(c) if is_sent(c) else c for c in s)

    def get(self, v):
        """result with the members replaced by their sentinels"""
        if isinstance(v, str):
            return ''.join(self.back.get(c, c) for c in v)
        if isinstance(v, list):
            return [self.get(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.get(x) for x in v)
        return v


def deep(ch, v):
    if isinstance(v, str):
        return ch.put(v)
    if isinstance(v, (list, tuple)):
        return type(v)(deep(ch, x) for x in v)
    return v


def literals(v):
    if isinstance(v, str):
        return {c for c in v if not is_sent(c)}
    if isinstance(v, (list, tuple)):
        return set().union(*[literals(x) for x in v]) if v else set()
    return set()


def text(v):
    return isinstance(v, str) or isinstance(v, (list, tuple)) and any(text(x) for x in v)


def every(fn, *vals):
    """('v', value) if fn gives the same for every choice, ('x', exception name) if it always fails that way, else None"""
    res = rounds(fn, vals, frozenset())
    if res is None or res[0] == 'v' and text(res[1]):
        # members that also occur literally would be taken for them in the result
        avoid = frozenset(literals(list(vals)))
        if avoid:
            r2 = rounds(fn, vals, avoid)
            if r2 is not None and r2[0] == 'v' and text(r2[1]):
                return r2
    return res


def rounds(fn, vals, avoid):
    res = None
    for j in range(ROUNDS):
        ch = Choice(j, avoid)
        args = [deep(ch, v) for v in vals]
        try:
            r = ('v', ch.get(fn(*args)))
        except Exception as e:
            r = ('x', type(e).__name__)
        if res is None:
            res = r
        elif res != r or type(res[1]) is not type(r[1]):
            return None
    return res


def outcomes(fn, *vals):
    """set of ('x', name) / ('v',) over the choices"""
    out = set()
    for j in range(ROUNDS):
        ch = Choice(j)
        args = [deep(ch, v) for v in vals]
        try:
            fn(*args)
            out.add(('v',))
        except Exception as e:
            out.add(('x', type(e).__name__))
    return out


def same(a, b):
    """a == b for strings with sentinels: True, False or None"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    sure = False
    for x, y in zip(a, b):
        if x == y:
            continue
        mx = set(MEMBERS[cls_of(x)[0]]) if is_sent(x) else {x}
        my = set(MEMBERS[cls_of(y)[0]]) if is_sent(y) else {y}
        if not mx & my:
            return False
    return None


def show(s):
    """readable form"""
    names = {'digit': 'digit', 'letter': 'letter', 'upper': 'LETTER', 'udigit': 'foreign digit', 'sup': 'superscript digit', 'blank': 'tab or newline',
             'ublank': 'unicode space', 'wide': 'foreign letter', 'caseless': 'foreign character'}
    return ''.join('<%s>' % names.get(cls_of(c)[0], cls_of(c)[0]) if is_sent(c) else c for c in s)


def refine(sources):
    """takes the characters that the analysed source names out of the classes; returns those characters"""
    import ast
    lits = set()
    for src in sources:
        tree = ast.parse(src)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(n.body[0].value)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n not in docs and len(n.value) <= 24:
                lits |= set(n.value)
    for c in CLASSES:
        MEMBERS[c] = members(c, lits)
    return lits
