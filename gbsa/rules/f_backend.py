"""F02 backends implement the interface, F06 backends are selected by name, F07 one or several edges."""
import re

from .facade import *
from .s_index import contracts, Index, final_entries, edge_term, orderings, tokens, Bad

BASE = ('gb.hypergraph.backend', 'Backend')
KNOWN = {'null': ('gb.hypergraph.null', 'Null', ''), 'sqlite': ('gb.hypergraph.sqlite', 'SQLite', 'params'),
         'mysql': ('gb.hypergraph.mysql', 'MySQL', 'params')}
OPS = [
    ('exists', ('vertex',)), ('add', ('edges', 'timestamp')), ('remove', ('edges',)), ('pattern2edges', ('pattern',)),
    ('star', ('center',)), ('symbols_with_root', ('root',)), ('destroy', ()), ('degree', ('vertex',)), ('timestamp', ('vertex',)),
    ('batch_exec', ('funs',)), ('f_all', ('f',)),
]


# ------------------------------------------------------------------ classes of the package, by name
class Classes(object):
    def __init__(self, prog):
        self.prog = prog
        self.nodes = {}
        for m in prog.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.nodes[(m.name, n.name)] = n

    def resolve(self, mod, e, depth=0):
        """the class an expression in a module names"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            if (mod, e.id) in self.nodes:
                return mod, e.id
            for d in self.prog.modules[mod].defs.get(e.id, ()):
                if d[0] == 'from':
                    if (d[1], d[2]) in self.nodes:
                        return d[1], d[2]
                    if d[1] in self.prog.modules:
                        return self.resolve(d[1], ast.Name(id=d[2]), depth + 1)
                elif d[0] == 'assign' and d[2] is None:
                    return self.resolve(mod, d[1].value, depth + 1)
        elif isinstance(e, ast.Attribute):
            q = self.module(mod, e.value)
            if q and q in self.prog.modules:
                return self.resolve(q, ast.Name(id=e.attr), depth + 1)
        return None

    def module(self, mod, e):
        if isinstance(e, ast.Name):
            for d in self.prog.modules[mod].defs.get(e.id, ()):
                if d[0] == 'import':
                    return d[1]
                if d[0] == 'from' and '%s.%s' % (d[1], d[2]) in self.prog.modules:
                    return '%s.%s' % (d[1], d[2])
        elif isinstance(e, ast.Attribute):
            b = self.module(mod, e.value)
            return b and '%s.%s' % (b, e.attr)
        return None

    def bases(self, c):
        return [self.resolve(c[0], b) for b in self.nodes[c].bases]

    def mro(self, c):
        """the class and its bases, depth first, later duplicates kept last as in the usual order; None if a base is unknown"""
        out = [c]
        for b in self.bases(c):
            if b is None:
                continue
            for x in self.mro(b):
                if x in out:
                    out.remove(x)
                out.append(x)
        return out

    def member(self, c, name):
        """(class, definition node or None) of an attribute of a class"""
        for k in self.mro(c):
            r = None
            for n in self.nodes[k].body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    r = n
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    r = n
            if isinstance(r, ast.Assign):
                if isinstance(r.value, ast.Name):
                    return self.member(k, r.value.id)
                return k, None
            if r is not None:
                return k, r
        return None


def literal(cl, mod, e):
    """value of a default: (True, value) if it is a constant"""
    try:
        return True, ast.literal_eval(e)
    except (ValueError, TypeError, SyntaxError):
        pass
    if isinstance(e, ast.Name):
        ds = cl.prog.modules[mod].defs.get(e.id, ())
        if len(ds) == 1 and ds[0][0] == 'assign' and ds[0][2] is None:
            return literal(cl, mod, ds[0][1].value)
        if len(ds) == 1 and ds[0][0] == 'from' and ds[0][1] in cl.prog.modules:
            return literal(cl, ds[0][1], ast.Name(id=ds[0][2]))
    return False, None


def signature(cl, where, fn):
    """[(name, has default, known default, value)], has *args / **kwargs"""
    a = fn.args
    pos = a.posonlyargs + a.args
    out = []
    for i, p in enumerate(pos[1:], 1):
        j = i - (len(pos) - len(a.defaults))
        if j >= 0:
            out.append((p.arg, True) + literal(cl, where[0], a.defaults[j]))
        else:
            out.append((p.arg, False, True, None))
    return out, [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None], a.vararg is not None, a.kwarg is not None


def f02(prog, rep, tier):
    rep.rules.append('class members: every operation of the backend base class is defined by every leaf class below it with the same parameters and defaults')
    rep.rules.append('abstract interpretation of the null backend: no effects, and the same empty answers as the SQL backends give when no row is found')
    cl = Classes(prog)
    if BASE not in cl.nodes:
        rep.undec('no class Backend in gb.hypergraph.backend')
        return
    subs = [c for c in cl.nodes if c != BASE and BASE in cl.mro(c)]
    leaves = [c for c in subs if not any(c != d and c in cl.mro(d) for d in subs)]
    ops = [n.name for n in cl.nodes[BASE].body if isinstance(n, ast.FunctionDef) and not n.name.startswith('_')]
    for c in sorted(leaves):
        if cl.member(c, '__getattr__') or cl.member(c, '__getattribute__') or cl.nodes[c].decorator_list:
            rep.undec('attributes of %s are computed' % c[1])
            continue
        rep.functions.add((prog.modules[c[0]].path, c[1]))
        for op in ops:
            _b, base = cl.member(BASE, op)
            own = cl.member(c, op)
            cons = '%s.%s' % (c[1], op)
            k, fn = own
            if k == BASE and stub(base):
                # set after the class statement, or on the instance?
                if any(isinstance(n, ast.Attribute) and n.attr == op and isinstance(n.ctx, ast.Store) for m in {x[0] for x in cl.mro(c)}
                       for n in ast.walk(prog.modules[m].tree)) or any(
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' for m in {x[0] for x in cl.mro(c)}
                        for n in ast.walk(prog.modules[m].tree)):
                    rep.undec('%s may be set elsewhere' % cons)
                    continue
                rep.bad('operation missing', cons, '%s does not define %s, so that asking it for this raises NotImplementedError' % (c[1], op))
                continue
            if fn is None or any(isinstance(d, ast.AST) for d in fn.decorator_list) or base.decorator_list:
                if fn is None or [ast.dump(d) for d in fn.decorator_list if ast.dump(d) != ast.dump(ast.Name(id='override', ctx=ast.Load()))]:
                    rep.undec('%s is not a plain method' % cons)
                    continue
            want, _kw, _v, _k = signature(cl, BASE, base)
            got, kwonly, var, kwv = signature(cl, k, fn)
            rep.ok('operations defined')
            if var or kwv:
                rep.undec('%s takes any arguments' % cons)
                continue
            if kwonly:
                rep.bad('parameters', cons, 'it demands the extra keyword %s' % ', '.join(kwonly))
                continue
            if [p[0] for p in got[:len(want)]] != [p[0] for p in want] or any(not p[1] for p in got[len(want):]):
                rep.bad('parameters', cons, 'its parameters (%s) are not those of the interface (%s)' % (
                    ', '.join(p[0] for p in got), ', '.join(p[0] for p in want)))
                continue
            for w, g in zip(want, got):
                if w[1] != g[1]:
                    if w[1]:
                        rep.bad('defaults', cons, 'parameter %s has no default' % w[0])
                    continue
                if not w[1]:
                    continue
                if not (w[2] and g[2]):
                    rep.undec('default of %s of %s' % (w[0], cons))
                elif w[3] != g[3] or type(w[3]) is not type(g[3]):
                    rep.bad('defaults', cons, 'the default of %s is %r instead of %r' % (w[0], g[3], w[3]))
                else:
                    rep.ok('defaults equal')
    null(prog, rep)


def stub(fn):
    """the function does nothing but raise NotImplementedError"""
    body = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if any('abstractmethod' in ast.dump(d) for d in fn.decorator_list):
        return True
    return len(body) == 1 and isinstance(body[0], ast.Raise) and 'NotImplementedError' in ast.dump(body[0])


def bdrive(prog, name, op, ps, before='', faults=()):
    mod, cls, cargs = KNOWN[name]
    args = ', '.join(ps)
    call = 'b.%s(%s)' % (op, args)
    src = 'from %s import %s\n\n\ndef drive(params%s):\n    b = %s(%s)\n' % (mod, cls, ''.join(', ' + p for p in ps + ('e0', 'g0')), cls, cargs)
    src += before
    src += '    mark("start")\n    r = %s\n    mark("end")\n    return r\n' % ('[x for x in %s]' % call if op == 'f_all' else call)
    return An(prog, src, 'drive', label='%s.%s' % (cls, op), opaque=lenient, rows=no_rows, objects=())


def no_rows(sql, binds):
    st = sqlp.parse(sql)
    if st.kind == 'SELECT' and st.cols and all(c[0] == 'col' for c in st.cols):
        return mk('tuple', ())
    return None


def answers(rep, a):
    """set of values returned, or None"""
    if a.imprecise:
        rep.undec('%s: %s' % (a.label, a.imprecise))
        return None
    out = set()
    for x in a.exits():
        v = x.data['value']
        if x.data['kind'] == 'raise':
            v = mk('raised', v)
        if v is not None and v.op == 'ref':
            return None
        out.add(v)
    return out


def kind(v):
    """what kind of answer a value is: ('set', empty) ..."""
    if v is None or is_c(v) and cv(v) is None:
        return 'none'
    if v.op == 'raised':
        return 'error'
    if is_c(v):
        return '%s %r' % (type(cv(v)).__name__, cv(v))
    if v.op == 'uniq' and v.a[0].op == 'tuple':
        return 'empty set' if not v.a[0].a[0] else None
    if v.op == 'tuple':
        return 'empty sequence' if not v.a[0] else None
    return None


TOUCH = ('exec', 'fopen', 'commit', 'rollback', 'connect', 'open', 'begin', 'mutate', 'setitem', 'setattr', 'globalwrite')
OUTSIDE = ('open', 'os', 'io', 'shutil', 'pathlib', 'sqlite3', 'MySQLdb', 'subprocess', 'tempfile', 'socket')


def outside(f):
    for x in walk(f):
        if x.op in ('ext', 'extmod', 'mod', 'builtin') and str(x.a[0]).split('.')[0] in OUTSIDE:
            return True
    return False


def null(prog, rep):
    before = ('    b.add(e0, 5)\n    b.batch_exec((g0,))\n    b.remove(e0)\n    b.destroy()\n    b.add(e0)\n')
    for op, ps in OPS:
        a = bdrive(prog, 'null', op, ps, before)
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        cons = 'Null.%s' % op
        eff = [n for n in a.nodes if n.kind in TOUCH or n.kind == 'call' and outside(n.data['func'])]
        if eff:
            rep.bad('the null backend touches something', cons, '%s has an effect: %s' % (op, eff[0].kind), path_of(eff[0].where))
        else:
            rep.ok('no effects')
        got = answers(rep, a)
        if got is None:
            continue
        if any(v is not None and v.op == 'raised' for v in got):
            rep.bad('the null backend refuses', cons, '%s fails with %s' % (op, [show(v.a[0])[:60] for v in got if v is not None and v.op == 'raised'][0]))
            continue
        if op == 'add':
            if got == {param('edges')}:
                rep.ok('answers')
            elif any(vague(v) for v in got):
                rep.undec('value of %s' % cons)
            else:
                rep.bad('answers of the null backend', cons, 'add returns %s instead of the edges it was given' % ', '.join(show(v)[:50] for v in got))
            continue
        kg = {kind(v) for v in got}
        for ref in ('sqlite', 'mysql'):
            o = bdrive(prog, ref, op, ps)
            rep.functions |= o.eng.analysed
            w = answers(rep, o)
            if w is None:
                continue
            kw = {kind(v) for v in w if v is None or v.op != 'raised'}
            if None in kw or None in kg:
                rep.undec('value of %s: %s / %s' % (op, ', '.join(show(v)[:60] for v in got), ', '.join(show(v)[:60] for v in w)))
            elif not kw:
                rep.undec('%s never returns' % o.label)
            elif len(kw) == 1 and kg == kw:
                rep.ok('answers')
            elif len(kw) == 1:
                rep.bad('answers of the null backend', cons, '%s answers %s where %s answers %s without edges' % (
                    op, ', '.join(sorted(kg)), KNOWN[ref][1], ', '.join(sorted(kw))))
            else:
                rep.undec('%s answers %s' % (o.label, ', '.join(sorted(str(x) for x in kw))))


# ------------------------------------------------------------------ F06
OPTIONS = {'db': '--db', 'host': '--dbhost', 'user': '--dbuser', 'passwd': '--dbpass', 'backend': '--backend'}
MYSQL_ARGS = ('host', 'user', 'passwd', 'db')


def select(prog, cond, params='', label='', names=KNOWN):
    src = ''.join('from %s import %s\n' % KNOWN[n][:2] for n in sorted(KNOWN)) + 'from gb.hypergraph.hypergraph import HyperGraph\n'
    src += ("\n\ndef drive(name, db, host, user, password):\n%s    hg = HyperGraph({'backend': name, 'db': db, 'host': host, 'user': user, 'password': password})\n"
            "    b = hg.backend\n    return (%s)\n") % (cond, ' '.join('isinstance(b, %s),' % KNOWN[n][1] for n in sorted(KNOWN)))
    return An(prog, src, 'drive', label=label, opaque=lenient)


def f06(prog, rep, tier):
    rep.rules.append('constant propagation of the backend name through the constructor: class selected, settings given to the database, errors for other names')
    rep.rules.append('dataflow from each command-line option through every command to the arguments of the database connection')
    opts, fn = options(prog)
    names = set(KNOWN)
    if opts:
        names |= set(advertised(opts.get('--backend'), rep))
    for n in sorted(names):
        a = select(prog, '    name = %r\n' % n, label='backend %s' % n)
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        for x in a.exits():
            if x.data['kind'] == 'raise':
                rep.bad('advertised backend refused', 'backend %s' % n, 'selecting it fails with %s' % show(x.data['value'])[:80])
                continue
            v = x.data['value']
            if v.op != 'tuple' or any(not is_c(g.a[0]) for g in v.a[0]):
                rep.undec('%s: %s' % (a.label, show(v)[:80]))
                continue
            hit = [k for k, g in zip(sorted(KNOWN), v.a[0]) if cv(g.a[0])]
            if hit != [n]:
                rep.bad('another backend selected', 'backend %s' % n, 'the name %s gives the %s backend' % (n, ', '.join(hit) or 'unknown'))
            else:
                rep.ok('names select')
        connected(a, rep, n, {'db': param('db'), 'host': param('host'), 'user': param('user'), 'passwd': param('password')}, 'backend %s' % n)
    others = [('other', ''.join('    assume(name != %r)\n' % k for k in sorted(names) + ['none']))]
    others += [(w, '    name = %r\n' % w) for w in ('sqlite3', 'SQLite', 'mysqldb', 'postgres', 'Null', '', 'nul', 'sql', 'my', 'sqlit', ' sqlite', 'null ', 'NONE')
               if w not in names]
    for w, cond in others:
        a = select(prog, cond, label='backend name %s' % (repr(w) if w != 'other' else 'not advertised'))
        rep.functions |= a.eng.analysed
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        for x in a.exits():
            if x.data['kind'] == 'raise':
                rep.ok('other names refused')
            elif w == 'other' and x.facts and any(vague(f) for f in x.facts):
                rep.undec('%s: %s' % (a.label, show(x.data['value'])[:80]))
            else:
                rep.bad('unknown backend accepted', 'HyperGraph.__init__', '%s is accepted' % a.label)
    if opts:
        cli(prog, rep, opts, fn, sorted(names))
    else:
        rep.undec('the options of the command line are not declared with click.option')


def options(prog):
    """{'--name': (parameter, decorator call)} of the command group, the function"""
    m = prog.modules.get('gb.gbrain')
    if m is None:
        return None, None
    for n in m.tree.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        ds = [d for d in n.decorator_list if isinstance(d, ast.Call)]
        if not any(dotted(d.func).endswith('group') for d in ds) and not any(dotted(d).endswith('group') for d in n.decorator_list):
            continue
        out = {}
        for d in ds:
            if not dotted(d.func).endswith('option'):
                continue
            strs = [x.value for x in d.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            flags = [x for x in strs if x.startswith('-')]
            nm = [x for x in strs if not x.startswith('-')]
            longs = [x for x in flags if x.startswith('--')] or flags
            if not flags:
                return None, None
            p = nm[0] if nm else longs[0].lstrip('-').replace('-', '_')
            for f in flags:
                out[f] = (p.lower(), d)
        return out, n
    return None, None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return dotted(e.value) + '.' + e.attr
    return '?'


def advertised(o, rep):
    if o is None:
        return []
    kw = {k.arg: k.value for k in o[1].keywords}
    out = []
    h = kw.get('help')
    if isinstance(h, ast.Constant) and isinstance(h.value, str):
        m = re.search(r'\(([^()]*)\)', h.value)
        if m:
            out = [x.strip() for x in re.split(r',|\bor\b', m.group(1)) if re.match(r'^\w+$', x.strip())]
    for c in ast.walk(o[1]):
        if isinstance(c, (ast.List, ast.Tuple)) and c.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in c.elts):
            out += [x.value for x in c.elts]
    d = kw.get('default')
    if out and isinstance(d, ast.Constant):
        if d.value not in out:
            rep.bad('default backend', 'option --backend', 'its default %r is not one of the backends named (%s)' % (d.value, ', '.join(out)))
        else:
            rep.ok('default advertised')
    return out


def settings(nd):
    """{setting: term} of a connect event"""
    if nd.data['dialect'] == 'sqlite':
        kw = dict(nd.data['kwargs'])
        return {'db': nd.data['args'][0] if nd.data['args'] else kw.get('database')}
    out = dict(zip(MYSQL_ARGS, nd.data['args']))
    for k, v in dict(nd.data['kwargs']).items():
        out[{'password': 'passwd', 'database': 'db', 'username': 'user'}.get(k, k)] = v
    return out


def connected(a, rep, n, want, cons):
    """the database is opened with the settings of the caller"""
    con = a.by('connect')
    if n == 'null':
        if con:
            rep.bad('null backend connects', cons, 'the null backend opens a database', path_of(con[0].where))
        return
    if not con:
        return
    for c in con:
        if c.data['dialect'] != n:
            rep.bad('another database opened', cons, 'a %s database is opened' % c.data['dialect'], path_of(c.where))
            continue
        got = settings(c)
        for k in (('db',) if n == 'sqlite' else MYSQL_ARGS):
            g = got.get(k)
            if want[k] is None:
                continue
            if g is want[k] or g is not None and unstr(g) is want[k]:
                rep.ok('settings passed')
            elif g is None:
                rep.bad('setting missing', '%s: %s' % (cons, k), 'the %s database is opened without the %s given' % (n, k), path_of(c.where))
            elif vague(g):
                rep.undec('%s: %s is %s' % (a.label, k, show(g)[:60]))
            else:
                rep.bad('setting mixed up', '%s: %s' % (cons, k), 'the %s of the %s database is %s instead of %s' % (k, n, show(g)[:60], show(want[k])), path_of(c.where))


def cli(prog, rep, opts, fn, names):
    m = prog.modules['gb.gbrain']
    cmds = []
    for n in m.tree.body:
        if isinstance(n, ast.FunctionDef) and n is not fn and any(
                dotted(d.func if isinstance(d, ast.Call) else d).endswith('.command') for d in n.decorator_list):
            cmds.append(n)
    need = {k: opts.get(f) for k, f in OPTIONS.items()}
    for k, v in need.items():
        if v is None:
            loose = [o for f, o in opts.items() if f.replace('-', '') == OPTIONS[k].replace('-', '')]
            need[k] = loose[0] if loose else None
    if need['backend'] is None:
        rep.undec('option --backend is not declared')
        return
    ps = sorted({p for p, _d in opts.values()})
    reads = {n.name: None for n in cmds}
    for c in cmds:
        extra = []
        for d in c.decorator_list:
            if isinstance(d, ast.Call) and (dotted(d.func).endswith('option') or dotted(d.func).endswith('argument')):
                strs = [x.value for x in d.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                nm = [x for x in strs if not x.startswith('-')] or [x.lstrip('-').replace('-', '_') for x in strs if x.startswith('--')]
                extra += nm[:1]
        for b in names:
            src = 'import gb.gbrain as g\n\n\nclass Ctx(object):\n    def __init__(self):\n        self.obj = None\n'
            src += '\n\ndef drive(%s):\n    %s = %r\n    ctx = Ctx()\n    g.%s(ctx, %s)\n    mark("start")\n    g.%s(ctx%s)\n    mark("end")\n' % (
                ', '.join(ps + extra), need['backend'][0], b, fn.name, ', '.join('%s=%s' % (p, p) for p in ps), c.name,
                ''.join(', %s=%s' % (e, e) for e in extra))
            a = An(prog, src, 'drive', label='gbrain %s with %s' % (c.name, b), opaque=outer,
                   transparent=lambda d: d.startswith('click.') or d.endswith('.command') or d.endswith('.group'))
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (a.label, a.imprecise))
                continue
            cons = 'gbrain %s' % c.name
            fails = [x for x in a.exits('raise') if x.data['value'] is None or x.data['value'].op != 'exc' or x.data['value'].a[0] in (
                'KeyError', 'TypeError', 'AttributeError', 'NameError', 'RuntimeError', 'UnboundLocalError')]
            if fails:
                rep.bad('command fails', '%s with %s' % (cons, b), 'it fails with %s' % show(fails[0].data['value'])[:80])
                continue
            for x in a.exits():
                rep.ok('commands run')
            connected(a, rep, b, {k: v and param(v[0]) for k, v in need.items()}, '%s with %s' % (cons, b))


def outer(fi):
    if fi.mod.name in ('gb.gbrain', 'gb.hypergraph.hypergraph', 'gb.hypergraph.sqlite', 'gb.hypergraph.mysql', 'gb.hypergraph.sql', 'gb.hypergraph.null',
                       'gb.hypergraph.backend') or fi.mod.name == '<driver>':
        return lenient(fi)
    if not fi.mod.name.startswith('gb.'):
        return None
    return 'event'


# ------------------------------------------------------------------ F07
SINGLE = ['(a, b)', '(a, b, c)', '((a, b), c)', '(c, (a, b))', '((a, b), c, (a, b))', '((a, b), (c, d), e)', '(12, a)', '((a, b), 12)', '(c, (a, b), (c, d))',
          '((a, (b, c)), d)']
SEVERAL = ['((a, b), (c, d))', '[(a, b), (c, d)]', '((a, b),)', '[(a, b)]', '(((a, b), c), (d, e))', '[(a, b), (c, d), (e, a)]', '((c, (a, b)), (a, b))', '(((a, b), (c, d)), (a, e))']
MORE1 = ['(a, (b, c), d)', '((a, b), (c, d), (a, c), e)', '(((a, b), c), d)', '(a, 2.5)', '((a, b), 7, (c, d))', '(e, (a, (b, (c, d))))']
MOREN = ['(((a, b), (c, d)), ((a, e), (e, b)), (a, b))', '((a, b, c), (d, e), (a, e))', '[((a, b), c)]', '((a, 12), (b, 13))']


def real(base):
    def f(fi):
        if fi.mod.name == 'gb.hypergraph.edge' and fi.qual == 'is_edge_collection':
            return None
        return base(fi)
    return f


def members(E):
    """the edges an argument stands for, by the definition of the property"""
    if E.op == 'tuple' and E.a[0] and all(g.op == 'one' and g.a[0].op == 'tuple' for g in E.a[0]):
        return [g.a[0] for g in E.a[0]]
    return [E]


def ps_of(expr):
    return [x for x in 'abcde' if re.search(r'\b%s\b' % x, expr)]


def strings(ps):
    return ''.join('    assume(isinstance(%s, str))\n' % p for p in ps)


def f07(prog, rep, tier):
    rep.rules.append('abstract interpretation of add, remove, add_belief and the buffered add with the one-or-several test inlined, on arguments of every small '
                     'shape: the edges that reach the index or the store are those the definition of the property names')
    one, several = SINGLE + (MORE1 if tier == 'thorough' else []), SEVERAL + (MOREN if tier == 'thorough' else [])
    for expr in one + several:
        E = edge_term(expr.replace('[', '(').replace(']', ',)').replace(',,', ','), ps_of(expr))
        Es = members(E)
        what = 'one edge' if expr in one else 'several edges'
        for b in BACKENDS:
            for op in ('add', 'remove'):
                indexed(prog, rep, b, op, expr, Es, what)
        stored(prog, rep, expr, Es, what)


def indexed(prog, rep, b, op, expr, Es, what):
    want = sorted({o for X in Es for o in orderings(X)}, key=str)
    start = ()
    if op == 'remove':
        from .s_query import entries_of
        start = tuple(e for X in Es for e in entries_of(X))
    ix = Index(start)
    ps = ps_of(expr)
    body = 'def drive(params, ts, %s):\n    sql = open_store(params)\n%s%s' % (', '.join(ps), strings(ps), ''.join('    assume(%s is not None)\n' % p for p in ps))
    body += '    mark("start")\n    r = sql.%s(%s)\n    mark("end", r)\n    return r\n' % (op, expr + (', ts' if op == 'add' else ''))
    lab = '%s.%s of %s' % (BACKENDS[b][1], op, expr)
    a = custom(prog, b, body, label=lab, opaque=real(contracts), rows=ix, unroll=400, max_steps=1500000)
    rep.functions |= a.eng.analysed
    if a.imprecise or ix.unknown:
        rep.undec('%s: %s' % (lab, a.imprecise or ix.unknown[0]))
        return
    cons = '%s.%s of %s' % (BACKENDS[b][1], op, what)
    bad = [x for x in a.exits('raise')]
    if bad:
        rep.bad('one or several', cons, '%s fails with %s' % (expr, show(bad[0].data['value'])[:80]))
        return
    try:
        ends, _d = final_entries(a, start)
    except Bad as e:
        rep.undec('%s: %s' % (lab, e))
        return
    for ents, nd in ends.items():
        toks = [tokens(x) for x in ents]
        if any(t is None for t in toks):
            if op == 'remove':
                rep.bad('one or several', cons, 'after removing %s some of its index entries are left' % expr, path_of(nd.where))
            else:
                rep.undec('%s: entry not understood' % lab)
            continue
        got = sorted({tuple(t[:-1]) for t in toks}, key=str)
        if op == 'add':
            if got == want:
                rep.ok('arguments classified')
            else:
                rep.bad('one or several', cons, 'adding %s indexes %s' % (expr, '; '.join(sorted({' '.join(show(y) for y in g) for g in got}))[:160] or 'nothing'), path_of(nd.where))
        elif got:
            rep.bad('one or several', cons, 'removing %s leaves index entries of it' % expr, path_of(nd.where))
        else:
            rep.ok('arguments classified')


def stored(prog, rep, expr, Es, what):
    from .f_facade import traced, source_const, meth
    src = source_const(prog, rep)
    ps = ps_of(expr)
    pre = strings(ps).replace('    ', '').strip()
    for batch, call, belief in ((False, 'hg.add_belief(source, %s, ts)' % expr, True), (True, 'hg.add(%s, ts)' % expr, False), (True, 'hg.add_belief(source, %s, ts)' % expr, True)):
        cls = 'BatchHyperGraph' if batch else 'HyperGraph'
        lab = '%s.%s of %s' % (cls, 'add_belief' if belief else 'add', expr)
        make = 'hg = buffered(ext, 1000)' if batch else 'hg = facade(ext)'
        a = fdrive(prog, '\n'.join([pre, make, 'mark("start")', call] + (['hg.flush()'] if batch else []) + ['mark("end")']), 'source, ts, ' + ', '.join(ps), lab, batch,
                   opaque=real(lenient), unroll=400)
        t = traced(rep, a)
        if t is None:
            continue
        want = set(Es)
        if belief:
            want |= {tup(src, X, param('source')) for X in Es}
        cons = '%s.%s of %s' % (cls, 'add_belief' if belief else 'add', what)
        for x, seqs in t.exits.items():
            if a.nodes[x].data['kind'] == 'raise':
                rep.bad('one or several', cons, '%s fails with %s' % (expr, show(a.nodes[x].data['value'])[:80]))
                continue
            for seq in seqs:
                if any(isinstance(y, tuple) for y in seq):
                    rep.undec('%s: trace' % lab)
                    continue
                got = set()
                tested = set()
                for y in seq:
                    nd = a.nodes[y]
                    if meth(nd) == 'add':
                        got |= set(members(nd.data['args'][0]))
                    elif meth(nd) == 'exists':
                        tested.add(nd.data['args'][0])
                if got == want or got <= want and want - got <= tested:
                    rep.ok('arguments classified')
                elif any(vague(y) for y in got):
                    rep.undec('%s: stores %s' % (lab, ', '.join(show(y)[:60] for y in got)))
                else:
                    rep.bad('one or several', cons, 'for %s the store is given %s' % (expr, '; '.join(sorted(show(y)[:60] for y in got)) or 'nothing'),
                            path_of(a.nodes[seq[0]].where) if seq else ())
