"""Tolerant parser for the SQL the storage layer issues.

Input is a template term (literal text with holes); output a Stmt.  A
statement that the grammar does not cover has kind '?' and is not judged.
"""
import re
from .terms import T, str_parts, is_c, cv, unstr

TOK = re.compile(r"""\s+|--[^\n]*|(?P<hole>\x00\d+\x00)|(?P<ph>\?|%s|%\(\w+\)s|:\w+)|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_][\w$]*)"""
                 r"""|(?P<q>`[^`]*`|"[^"]*"|\[[^\]]*\])|(?P<s>'(?:[^']|'')*')|(?P<op><=|>=|<>|!=|==|\|\||[-+*/%=<>(),.;])""")


class Stmt(object):
    def __init__(self):
        self.kind = '?'
        self.table = None
        self.cols = []          # selected or inserted columns
        self.sets = []          # (column, expr)
        self.vals = []          # list of value expressions (insert)
        self.where = None       # list of (lhs, op, rhs) conjuncts, None if absent, '?' if not understood
        self.flags = set()
        self.marks = []         # placeholder spelling, in order
        self.holes = []         # terms in holes
        self.ddl = []           # (column, type, default)
        self.conflict = None    # list of sets of an upsert, [] for do nothing
        self.text = ''
        self.limit = None

    def __repr__(self):
        return '<%s %s cols=%s sets=%s vals=%s where=%s flags=%s>' % (self.kind, self.table, self.cols, self.sets, self.vals,
                                                                     self.where, sorted(self.flags))


class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.nph = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '')

    def kw(self, *ws):
        for k, w in enumerate(ws):
            t = self.peek(k)
            if t[0] != 'id' or t[1].upper() != w:
                return False
        self.i += len(ws)
        return True

    def op(self, o):
        t = self.peek()
        if t[0] == 'op' and t[1] == o:
            self.i += 1
            return True
        return False

    def name(self):
        t = self.peek()
        if t[0] == 'id':
            self.i += 1
            n = t[1].lower()
        elif t[0] == 'q':
            self.i += 1
            n = t[1][1:-1].lower()
        elif t[0] == 'hole':
            self.i += 1
            n = t[1]
        else:
            raise ValueError('name expected at %r' % (t,))
        while self.op('.'):
            n = self.name()
        return n

    def atom(self):
        t = self.peek()
        if t[0] == 'ph':
            self.i += 1
            r = ('ph', self.nph)
            self.nph += 1
            return r
        if t[0] == 'num':
            self.i += 1
            return ('lit', float(t[1]) if '.' in t[1] else int(t[1]))
        if t[0] == 's':
            self.i += 1
            return ('lit', t[1][1:-1])
        if t[0] == 'hole':
            self.i += 1
            return ('hole', t[1])
        if self.op('-'):
            a = self.atom()
            if a[0] == 'lit' and isinstance(a[1], (int, float)):
                return ('lit', -a[1])
            return ('fn', 'neg', (a,))
        if self.op('+'):
            return self.atom()
        if self.op('('):
            if self.kw('SELECT'):
                raise ValueError('subquery')
            e = self.expr()
            if self.op(','):
                es = [e, self.expr()]
                while self.op(','):
                    es.append(self.expr())
                e = ('row', tuple(es))
            if not self.op(')'):
                raise ValueError(') expected')
            return e
        if t[0] == 'op' and t[1] == '*':
            self.i += 1
            return ('star',)
        if t[0] == 'id' and t[1].upper() == 'NULL':
            self.i += 1
            return ('lit', None)
        if t[0] == 'id' and self.peek(1) == ('op', '('):
            f = t[1].lower()
            self.i += 2
            args = []
            self.kw('DISTINCT')
            if not self.op(')'):
                args.append(self.expr())
                while self.op(','):
                    args.append(self.expr())
                if not self.op(')'):
                    raise ValueError(') expected')
            return ('fn', f, tuple(args))
        return ('col', self.name())

    def mulx(self):
        e = self.atom()
        while self.peek()[0] == 'op' and self.peek()[1] in ('*', '/', '%', '||'):
            o = self.peek()[1]
            self.i += 1
            e = ('bin', o, e, self.atom())
        return e

    def expr(self):
        e = self.mulx()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-'):
            o = self.peek()[1]
            self.i += 1
            e = ('bin', o, e, self.mulx())
        return e

    def cond(self, out):
        """conjunction"""
        while True:
            if self.peek()[0] == 'op' and self.peek()[1] == '(' and not (self.peek(1)[0] == 'id' and self.peek(1)[1].upper() == 'SELECT'):
                save = self.i, self.nph, len(out)
                try:
                    self.i += 1
                    self.cond(out)
                    if not self.op(')'):
                        raise ValueError('paren')
                except ValueError:
                    self.i, self.nph = save[:2]
                    del out[save[2]:]
                    self.simple(out)
            else:
                self.simple(out)
            if self.kw('AND'):
                continue
            if self.peek()[0] == 'id' and self.peek()[1].upper() == 'OR':
                raise ValueError('or')
            return

    def simple(self, out):
        neg = self.kw('NOT')
        l = self.expr()
        neg2 = self.kw('NOT')
        if self.kw('BETWEEN'):
            a = self.expr()
            if not self.kw('AND'):
                raise ValueError('and')
            b = self.expr()
            if neg or neg2:
                raise ValueError('not between')
            out.append((l, '>=', a))
            out.append((l, '<=', b))
            return
        if self.kw('LIKE'):
            r = self.expr()
            o = 'like'
            if self.kw('ESCAPE'):
                self.expr()
                o = 'like-esc'
        elif self.kw('GLOB'):
            r = self.expr()
            o = 'glob'
        elif self.kw('IN'):
            if not self.op('('):
                raise ValueError('in')
            es = [self.expr()]
            while self.op(','):
                es.append(self.expr())
            if not self.op(')'):
                raise ValueError('in')
            r = ('row', tuple(es))
            o = 'in'
            if len(es) == 1:
                o, r = '=', es[0]
        elif self.kw('IS', 'NOT'):
            r = self.expr()
            o = '!='
        elif self.kw('IS'):
            r = self.expr()
            o = '='
        else:
            t = self.peek()
            if t[0] != 'op' or t[1] not in ('=', '==', '<', '>', '<=', '>=', '<>', '!='):
                if t[0] == 'end' or t[1] in (')', ';'):
                    out.append((l, 'true', None))
                    return
                raise ValueError('operator expected at %r' % (t,))
            self.i += 1
            o = {'==': '=', '<>': '!='}.get(t[1], t[1])
            r = self.expr()
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if r[0] == 'col' and l[0] != 'col':
            l, r, o = r, l, flip.get(o, o)
        if neg or neg2:
            o = {'=': '!=', '!=': '=', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}.get(o, 'not ' + o)
        out.append((l, o, r))


def tokenize(parts):
    text = ''
    holes = []
    for p in parts:
        if isinstance(p, str):
            text += p
        else:
            text += '\x00%d\x00' % len(holes)
            holes.append(p)
    toks = []
    i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError('cannot read %r' % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k:
            toks.append((k, m.group()))
    return toks, holes, text


def parse(sql):
    """sql: term.  Returns a Stmt."""
    st = Stmt()
    parts = str_parts(sql) if isinstance(sql, T) else (sql,)
    if len(parts) == 1 and isinstance(parts[0], T):
        st.text = '<%s>' % (parts[0],)
        st.holes = [parts[0]]
        return st
    try:
        toks, st.holes, st.text = tokenize(parts)
    except ValueError:
        return st
    st.marks = [t[1] for t in toks if t[0] == 'ph']
    while toks and toks[-1] == ('op', ';'):
        toks.pop()
    if ('op', ';') in toks:
        st.kind = '?'
        st.flags.add('script')
        return st
    p = P(toks)
    try:
        statement(p, st)
    except ValueError as e:
        st.flags.add('unparsed:' + str(e))
        if st.kind == '?':
            k = toks[0][1].upper() if toks else ''
            st.head = k
    return st


def where(p, st):
    if p.kw('WHERE'):
        out = []
        try:
            p.cond(out)
            st.where = out
        except ValueError:
            st.where = '?'
            p.i = len(p.t)


def tail(p, st):
    while True:
        if p.kw('ORDER', 'BY'):
            st.flags.add('order')
            p.expr()
            p.kw('ASC') or p.kw('DESC')
            while p.op(','):
                p.expr()
                p.kw('ASC') or p.kw('DESC')
        elif p.kw('LIMIT'):
            st.limit = p.expr()
            st.flags.add('limit')
            if p.op(',') or p.kw('OFFSET'):
                p.expr()
                st.flags.add('offset')
        elif p.kw('FOR', 'UPDATE'):
            st.flags.add('forupdate')
        elif p.kw('GROUP', 'BY'):
            st.flags.add('group')
            p.expr()
        else:
            break
    if p.peek()[0] != 'end':
        st.flags.add('rest')


def statement(p, st):
    if p.kw('SELECT'):
        if p.kw('DISTINCT'):
            st.flags.add('distinct')
        cols = [p.expr()]
        alias(p)
        while p.op(','):
            cols.append(p.expr())
            alias(p)
        st.cols = cols
        st.kind = 'SELECT'
        if p.kw('FROM'):
            st.table = p.name()
            if p.peek()[0] == 'op' and p.peek()[1] == ',' or p.peek()[1].upper() in ('JOIN', 'LEFT', 'INNER', 'CROSS'):
                st.flags.add('join')
                st.where = '?'
                p.i = len(p.t)
                return
            alias(p)
        where(p, st)
        tail(p, st)
    elif p.kw('INSERT') or p.kw('REPLACE'):
        if p.t[p.i - 1][1].upper() == 'REPLACE':
            st.flags.add('replace')
        if p.kw('OR'):
            w = p.name()
            st.flags.add({'ignore': 'orignore', 'replace': 'replace'}.get(w, 'or ' + w))
            if w == 'replace':
                st.flags.add('or replace')
        elif p.kw('IGNORE'):
            st.flags.add('ignore')
        p.kw('INTO')
        st.table = p.name()
        if p.op('('):
            st.cols = [p.name()]
            while p.op(','):
                st.cols.append(p.name())
            if not p.op(')'):
                raise ValueError(') expected')
        st.kind = 'INSERT'
        if not (p.kw('VALUES') or p.kw('VALUE')):
            st.flags.add('insert-select')
            p.i = len(p.t)
            return
        if not p.op('('):
            raise ValueError('(')
        st.vals = [p.expr()]
        while p.op(','):
            st.vals.append(p.expr())
        if not p.op(')'):
            raise ValueError(')')
        if p.op(','):
            st.flags.add('multirow')
            p.i = len(p.t)
            return
        if p.kw('ON', 'CONFLICT'):
            st.flags.add('onconflict')
            if p.op('('):
                p.name()
                while p.op(','):
                    p.name()
                p.op(')')
            if not p.kw('DO'):
                raise ValueError('do')
            if p.kw('NOTHING'):
                st.conflict = []
            elif p.kw('UPDATE', 'SET'):
                st.conflict = sets(p)
                where(p, st)
        elif p.kw('ON', 'DUPLICATE', 'KEY', 'UPDATE'):
            st.flags.add('onduplicate')
            st.conflict = sets(p)
        tail(p, st)
    elif p.kw('UPDATE'):
        if p.kw('OR'):
            st.flags.add('or ' + p.name())
        elif p.kw('IGNORE'):
            st.flags.add('ignore')
        st.table = p.name()
        if not p.kw('SET'):
            raise ValueError('set')
        st.kind = 'UPDATE'
        st.sets = sets(p)
        where(p, st)
        tail(p, st)
    elif p.kw('DELETE', 'FROM') or p.kw('DELETE'):
        st.table = p.name()
        st.kind = 'DELETE'
        where(p, st)
        tail(p, st)
    elif p.kw('CREATE'):
        temp = p.kw('TEMP') or p.kw('TEMPORARY')
        if temp:
            st.flags.add('temp')
        if p.kw('TABLE'):
            st.kind = 'CREATE'
            if p.kw('IF', 'NOT', 'EXISTS'):
                st.flags.add('ifnotexists')
            st.table = p.name()
            if p.op('('):
                while True:
                    coldef(p, st)
                    if not p.op(','):
                        break
                p.op(')')
            rest = ' '.join(t[1] for t in p.t[p.i:]).upper()
            if 'ENGINE' in rest or 'CHARSET' in rest or 'CHARACTER SET' in rest:
                st.flags.add('engine')
        else:
            u = p.kw('UNIQUE')
            if p.kw('INDEX'):
                st.kind = 'CREATE INDEX'
                if p.kw('IF', 'NOT', 'EXISTS'):
                    st.flags.add('ifnotexists')
                p.name()
                if p.kw('ON'):
                    st.table = p.name()
                    if p.op('('):
                        st.cols = [('col', p.name())]
                        if u:
                            st.flags.add('unique')
            else:
                st.kind = 'CREATE OTHER'
    elif p.kw('ALTER', 'TABLE'):
        st.table = p.name()
        st.kind = 'ALTER'
        if p.kw('ADD'):
            if p.kw('INDEX') or p.kw('KEY') or p.kw('CONSTRAINT') or p.kw('PRIMARY'):
                st.kind = 'CREATE INDEX'
                return
            p.kw('COLUMN')
            st.flags.add('add')
            coldef(p, st)
        elif p.kw('DROP'):
            st.flags.add('drop')
        elif p.kw('RENAME'):
            st.flags.add('rename')
        elif p.kw('MODIFY') or p.kw('CHANGE'):
            st.flags.add('modify')
    elif p.kw('DROP', 'TABLE'):
        st.kind = 'DROP'
        if p.kw('IF', 'EXISTS'):
            st.flags.add('ifexists')
        st.table = p.name()
    elif p.kw('TRUNCATE'):
        p.kw('TABLE')
        st.kind = 'TRUNCATE'
        st.table = p.name()
    elif p.kw('START', 'TRANSACTION'):
        st.kind = 'BEGIN'
        st.flags.add('start')
    elif p.kw('BEGIN'):
        st.kind = 'BEGIN'
        if p.peek()[0] == 'id' and p.peek()[1].upper() in ('IMMEDIATE', 'EXCLUSIVE', 'DEFERRED'):
            st.flags.add('sqlite')
    elif p.kw('COMMIT') or p.kw('END'):
        st.kind = 'COMMIT'
    elif p.kw('ROLLBACK'):
        st.kind = 'ROLLBACK'
        if p.kw('TO'):
            st.kind = 'SAVEPOINT'
    elif p.kw('SAVEPOINT') or p.kw('RELEASE'):
        st.kind = 'SAVEPOINT'
    elif p.kw('PRAGMA') or p.kw('SET') or p.kw('USE') or p.kw('SHOW') or p.kw('EXPLAIN') or p.kw('ANALYZE') or p.kw('VACUUM'):
        st.kind = 'SETTING'
        st.flags.add(p.t[p.i - 1][1].upper())


def alias(p):
    if p.kw('AS'):
        p.name()
    elif p.peek()[0] == 'id' and p.peek()[1].upper() not in ('FROM', 'WHERE', 'ORDER', 'LIMIT', 'GROUP', 'FOR', 'UNION', 'JOIN',
                                                              'LEFT', 'INNER', 'CROSS', 'ON', 'HAVING'):
        p.name()


def sets(p):
    out = []
    while True:
        c = p.name()
        if not p.op('='):
            raise ValueError('=')
        out.append((c, p.expr()))
        if not p.op(','):
            return out


def coldef(p, st):
    t = p.peek()
    if t[0] == 'id' and t[1].upper() in ('PRIMARY', 'UNIQUE', 'INDEX', 'KEY', 'CONSTRAINT', 'FOREIGN', 'CHECK'):
        depth = 0
        flag = t[1].upper()
        names = []
        while p.peek()[0] != 'end':
            if depth == 0 and p.peek() in (('op', ','), ('op', ')')):
                break
            if p.peek() == ('op', '('):
                depth += 1
            elif p.peek() == ('op', ')'):
                depth -= 1
            elif p.peek()[0] in ('id', 'q') and depth:
                names.append(p.peek()[1].strip('`"[]').lower())
            p.i += 1
        if flag == 'PRIMARY':
            st.flags.add('pk')
            st.pk = names
        return
    name = p.name()
    typ = []
    default = None
    pk = False
    depth = 0
    while p.peek()[0] != 'end':
        t = p.peek()
        if depth == 0 and t in (('op', ','), ('op', ')')):
            break
        if depth == 0 and t[0] == 'id' and t[1].upper() == 'DEFAULT':
            p.i += 1
            default = p.atom()
            continue
        if t == ('op', '('):
            depth += 1
        elif t == ('op', ')'):
            depth -= 1
        else:
            typ.append(t[1].upper())
        p.i += 1
    st.ddl.append((name, ' '.join(typ), default))


def bind_of(st, data, e):
    """term bound to expression e of the statement, or None"""
    if e is None or e[0] != 'ph':
        return None
    b = data['binds']
    if b is None:
        return None
    if b.op == 'tuple':
        vals = []
        for g in b.a[0]:
            if g.op != 'one':
                return None
            vals.append(g.a[0])
        if e[1] < len(vals):
            return unstr(vals[e[1]])
        return None
    if b.op == 'dict':
        return None
    return None
