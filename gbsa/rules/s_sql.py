"""S01 caller data only as bound values; S02 statements fit driver and schema."""
import sqlite3

from .storage import *
from ..loader import iter_functions
import ast


def tainted(t):
    """subterm by which a value that comes from a caller or from stored rows enters t, or None"""
    if isinstance(t, tuple):
        for x in t:
            r = tainted(x)
            if r is not None:
                return r
        return None
    if not isinstance(t, T):
        return None
    if t.op in ('param', 'rows', 'anyrows', 'ret', 'nextrow'):
        return t
    if t.op in ('len', 'it', 'const', 'ext', 'func', 'bound', 'cls', 'mod', 'unk', 'b', 'ref', 'frame'):
        return None
    if t.op == 'many':
        return tainted(tuple(sg for _f, sg in t.a[2]))
    if t.op in ('range',):
        return None
    return tainted(tuple(x for x in t.a))


def from_settings(t):
    return all(x.a[0] == 'params' for x in walk(t) if x.op == 'param')


def every(prog):
    """all operations, plus every other method of the SQL classes with unknown arguments"""
    for a in all_ops(prog):
        yield a
    for b in BACKENDS:
        for m in methods(prog, b):
            yield m


_meth = {}


def methods(prog, b):
    key = (id(prog), b)
    if key in _meth:
        return _meth[key]
    out = []
    known = {'add', 'remove', 'exists', 'star', 'pattern2edges', 'symbols_with_root', 'degree', 'timestamp', 'f_all', 'destroy',
             'batch_exec', '__init__'}
    seen = set()
    for mname in ('gb.hypergraph.sql', BACKENDS[b][0]):
        m = prog.modules.get(mname)
        if m is None:
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                for f in node.body:
                    if isinstance(f, ast.FunctionDef) and f.name not in known and f.name not in seen and not f.name.startswith('__'):
                        a = f.args
                        n = len(a.args) - 1
                        if f.decorator_list:
                            continue
                        seen.add(f.name)
                        ps = ', '.join('a%d' % i for i in range(n))
                        out.append(custom(prog, b, 'def drive(params%s):\n    sql = open_store(params)\n    mark("start")\n    r = sql.%s(%s)\n    mark("end")\n    return r\n'
                                          % (', ' + ps if ps else '', f.name, ps), label='%s.%s' % (BACKENDS[b][1], f.name)))
    _meth[key] = out
    return out


def s01(prog, rep, tier):
    rep.rules.append('no hole of a statement template derives from a parameter of the operation, a callback result or a database row')
    sites = set()
    for a in every(prog):
        rep.functions |= a.eng.analysed
        for nd in a.by('exec'):
            st = a.stmt(nd)
            w = placel(nd.where)
            if a.op is None and w in sites:
                continue    # a helper: judged with the values the operations give it
            sites.add(w)
            for h in st.holes:
                t = tainted(h)
                if a.op is None:
                    if t is not None:
                        rep.undec('statement text of %s' % w)
                elif t is not None and not from_settings(h):
                    rep.bad('statement text built from data', place(nd.where),
                            'in %s the statement text contains %s' % (a.label, show(h)[:160]), path_of(nd.where))
                elif t is not None:
                    rep.bad('statement text built from settings', place(nd.where),
                            'in %s the statement text contains %s' % (a.label, show(h)[:160]), path_of(nd.where))
                elif vague(h):
                    rep.undec('statement text at %s' % placel(nd.where))
            rep.ok('executed statements')
            rep.sample('%s: %s' % (placel(nd.where), st.text[:90]))
    # every execute call of the package is one of those
    for m in prog.modules.values():
        if not m.name.startswith('gb.hypergraph'):
            continue
        for fn, qual, cls in iter_functions(m.tree):
            for c in ast.walk(fn):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('execute', 'executemany', 'executescript'):
                    where = '%s:%d in ' % (short(m.path), c.lineno)
                    if not any(s.startswith(where) for s in sites):
                        # not reached by any driver: only literal text is accepted
                        if not (c.args and isinstance(c.args[0], ast.Constant)):
                            if c.args and isinstance(c.args[0], ast.Name) and all(
                                    isinstance(x, ast.AST) for x in [c]):
                                rep.undec('execute call not reached: %s%s' % (where, qual))
                            else:
                                rep.undec('execute call not reached: %s%s' % (where, qual))
    rep.counts['statement sites'] = len(sites)


INTLIKE = ('INT', 'NUM', 'REAL', 'DEC', 'FLOAT', 'DOUBLE')


def schema(prog, b, rep=None):
    """{table: {column: (type, default)}} that opening a store creates"""
    a = custom(prog, b, 'def drive(params):\n    sql = open_store(params)\n    mark("end")\n', label=BACKENDS[b][1] + '.open')
    tabs = {}
    keys = {}
    ddl = []
    for nd in a.by('exec'):
        st = a.stmt(nd)
        if st.kind == 'CREATE' and st.table:
            t = tabs.setdefault(st.table, {})
            for c, ty, d in st.ddl:
                t[c] = (ty, d)
                if 'PRIMARY' in ty or 'UNIQUE' in ty:
                    keys.setdefault(st.table, set()).add(c)
            for c in getattr(st, 'pk', []):
                keys.setdefault(st.table, set()).add(c)
            ddl.append(st.text)
        elif st.kind == 'ALTER' and 'add' in st.flags and st.table in tabs:
            for c, ty, d in st.ddl:
                tabs[st.table][c] = (ty, d)
            ddl.append(st.text)
        elif st.kind == '?':
            if rep is not None:
                rep.undec('schema statement %s' % st.text[:60])
    return tabs, keys, ddl, a


def exprs(st):
    for e in st.cols:
        yield e if isinstance(e, tuple) else ('col', e)
    for c, e in st.sets:
        yield ('col', c)
        yield e
    for e in st.vals:
        yield e
    for c, e in st.conflict or ():
        yield ('col', c)
        yield e
    if isinstance(st.where, list):
        for l, o, r in st.where:
            yield l
            if r is not None:
                yield r


def columns(e):
    if e[0] == 'col':
        yield e[1]
    elif e[0] in ('bin',):
        for x in e[2:]:
            yield from columns(x)
    elif e[0] in ('fn',):
        if e[1] == 'values':
            return
        for x in e[2]:
            yield from columns(x)
    elif e[0] == 'row':
        for x in e[1]:
            yield from columns(x)


def s02(prog, rep, tier):
    rep.rules.append('marker spelling and count per statement, table and column names against the DDL the same backend issues, '
                     'SQLite statements compiled against that schema, equal schemas on both backends')
    schemas = {}
    for b in BACKENDS:
        tabs, keys, ddl, a = schema(prog, b, rep)
        schemas[b] = tabs
        rep.functions |= a.eng.analysed
        rep.ok('schema columns', sum(len(t) for t in tabs.values()))
        rep.sample('%s schema: %s' % (b, {t: sorted(c) for t, c in tabs.items()}))
    con = sqlite3.connect(':memory:')
    for text in schema(prog, 'sqlite')[2]:
        try:
            con.execute(text)
        except sqlite3.Error as e:
            if 'duplicate column' not in str(e) and 'already exists' not in str(e):
                rep.bad('schema statement rejected', 'sqlite', '%s: %s' % (text[:80], e))
    for a in every(prog):
        b = a.backend
        want = BACKENDS[b][2]
        tabs = schemas[b]
        rep.functions |= a.eng.analysed
        for nd in a.by('exec'):
            st = a.stmt(nd)
            w = place(nd.where)
            if nd.data['dialect'] != b:
                rep.undec('connection of %s' % a.label)
                continue
            rep.ok('statements')
            for h in st.holes:
                if h.op in ('const',):
                    continue
                if any(x.op == 'attr' for x in walk(h)) and not tainted(h):
                    pass
            for mk_ in st.marks:
                if mk_ == want or (b == 'sqlite' and mk_.startswith(':')) or (b == 'mysql' and mk_.startswith('%(')):
                    continue
                rep.bad('parameter marker', '%s on %s' % (w, b), 'the statement %r uses the marker %s, %s needs %s' % (
                    st.text[:100], mk_, b, want), path_of(nd.where))
            if b == 'mysql' and nd.data['binds'] is not None:
                t = st.text
                i = 0
                while True:
                    i = t.find('%', i)
                    if i < 0:
                        break
                    if t[i + 1:i + 2] not in ('s', '%', '('):
                        rep.bad('percent sign in statement', '%s on %s' % (w, b), 'stray percent sign in %r' % t[:100])
                    i += 2
            binds = nd.data['binds']
            n = len(st.marks)
            if st.kind == '?' and not st.marks and st.holes:
                pass
            elif binds is None or binds is NONE:
                if n:
                    rep.bad('missing values', '%s on %s' % (w, b), '%r has %d markers and no values' % (st.text[:100], n), path_of(nd.where))
            elif binds.op == 'tuple':
                if known_len(binds.a[0]):
                    if len(binds.a[0]) != n and not any(m[0] in ':' or m.startswith('%(') for m in st.marks) and not unknown_marks(st):
                        rep.bad('number of values', '%s on %s' % (w, b), '%r has %d markers and %d values' % (
                            st.text[:100], n, len(binds.a[0])), path_of(nd.where))
                elif a.op is not None:
                    rep.undec('number of values at %s' % placel(nd.where))
            elif binds.op == 'dict':
                pass
            elif is_text(binds):
                rep.bad('values are a text', '%s on %s' % (w, b), 'the values of %r are a single text, not a sequence' % st.text[:100],
                        path_of(nd.where))
            elif a.op is not None:
                rep.undec('values at %s' % placel(nd.where))
            if st.kind in ('SELECT', 'INSERT', 'UPDATE', 'DELETE') and st.table and '\x00' not in st.table:
                if st.table not in tabs:
                    rep.bad('unknown table', '%s on %s' % (w, b), 'no table %s is created by %s' % (st.table, BACKENDS[b][1]))
                else:
                    for e in exprs(st):
                        for c in columns(e):
                            if c not in tabs[st.table] and c not in ('excluded', 'rowid') and '\x00' not in c:
                                rep.bad('unknown column', '%s on %s' % (w, b), 'table %s of %s has no column %s' % (
                                    st.table, BACKENDS[b][1], c), path_of(nd.where))
                            else:
                                rep.ok('column uses')
            if b == 'mysql':
                for fl in st.flags:
                    if fl in ('orignore', 'onconflict', 'or replace', 'sqlite', 'PRAGMA', 'VACUUM') or fl.startswith('or '):
                        rep.bad('foreign syntax', '%s on mysql' % w, '%r is SQLite syntax' % st.text[:100])
                if 'AUTOINCREMENT' in st.text.upper():
                    rep.bad('foreign syntax', '%s on mysql' % w, '%r is SQLite syntax' % st.text[:100])
            if b == 'sqlite' and not st.holes and st.kind not in ('CREATE', 'ALTER', 'SETTING', 'BEGIN', 'COMMIT', 'ROLLBACK', 'SAVEPOINT', 'DROP'):
                try:
                    vals = [None] * n
                    if any(m.startswith(':') for m in st.marks):
                        vals = {m[1:]: None for m in st.marks}
                    con.execute('EXPLAIN ' + st.text, vals)
                    rep.ok('statements compiled')
                except sqlite3.Error as e:
                    if 'Incorrect number of bindings' not in str(e) and not any(m.startswith('%') for m in st.marks):
                        rep.bad('statement rejected', '%s on sqlite' % w, '%r: %s' % (st.text[:100], e), path_of(nd.where))
    con.close()
    ts, tm = schemas['sqlite'], schemas['mysql']
    for t in sorted(set(ts) | set(tm)):
        cs, cm = ts.get(t, {}), tm.get(t, {})
        for c in sorted(set(cs) | set(cm)):
            if c not in cs or c not in cm:
                rep.bad('schemas differ', '%s.%s' % (t, c), 'only %s creates column %s of table %s' % (
                    'SQLite' if c in cs else 'MySQL', c, t))
            else:
                rep.ok('columns compared')
    for b, tabs in schemas.items():
        v = tabs.get('vertices')
        if v is None:
            continue
        for c, want in (('degree', 0), ('timestamp', -1)):
            if c in v:
                ty, d = v[c]
                if d is None or d[0] == 'lit' and d[1] not in (want, str(want)) or d[0] not in ('lit',):
                    rep.bad('default value', '%s.%s' % (b, c), 'column %s defaults to %s, not %d' % (c, d and d[1], want))
                elif ty and not any(k in ty for k in INTLIKE):
                    rep.bad('column type', '%s.%s' % (b, c), 'column %s has type %s' % (c, ty))
                else:
                    rep.ok('defaults')


def unknown_marks(st):
    """markers may hide in holes"""
    return any(h.op not in ('const',) for h in st.holes)
