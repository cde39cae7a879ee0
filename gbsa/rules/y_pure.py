"""Y01: the symbol and edge helpers are pure (effect analysis of their call graph, aliasing and history by interpretation)."""
import ast

from ..core import *
from ..terms import *
from ..loader import iter_functions
from .y_text import SYM, EDGE, HEADER, value, equal, pretty, setup

RANDOM = {'random_hash', 'new_meaning'}
TEXTUAL = {'hashed', 'str2symbol', 'open_pars', 'close_pars', 'token_type', 'parsed_token', 'split_edge_str', 'str2edge'}
MUTATORS = {'append', 'add', 'update', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'setdefault', 'sort', 'reverse', 'discard', 'appendleft', 'popleft',
            'move_to_end', '__setitem__', '__delitem__'}
RANDOM_SOURCES = ('random', 'numpy.random', 'secrets', 'uuid')
WORLD = ('time', 'datetime', 'os', 'sys', 'locale', 'socket', 'subprocess', 'platform', 'getpass', 'threading', 'multiprocessing', 'gc', 'tempfile', 'weakref')
PURE_WORLD = {'sys.maxsize', 'sys.intern', 'os.path.join', 'os.path.basename', 'os.path.splitext', 'os.path.dirname', 'os.sep', 'os.linesep', 'sys.maxunicode'}
WORLD_BUILTINS = {'hash', 'id', 'open', 'input'}
SETTERS = {'numpy.seterr', 'numpy.set_printoptions', 'numpy.random.seed', 'random.seed', 'sys.setrecursionlimit', 'locale.setlocale', 'sys.setswitchinterval',
           'decimal.setcontext'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
INSENSITIVE = {'set', 'frozenset', 'any', 'all', 'sum', 'len', 'min', 'max', 'sorted', 'bool'}


class Fn(object):
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.name = '%s.%s' % (mod.name.split('.')[-1], qual)
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs] + [p.arg for p in (a.vararg, a.kwarg) if p]
        self.globals = {x for n in ast.walk(node) if isinstance(n, ast.Global) for x in n.names}
        self.stores = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} - self.globals
        self.imports = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Import):
                for x in n.names:
                    self.imports[x.asname or x.name.split('.')[0]] = x.name if x.asname else x.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for x in n.names:
                    self.imports[x.asname or x.name] = '%s.%s' % (n.module, x.name)
        self.nested = {n.name for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node and isinstance(n, ast.FunctionDef)}

    def local(self, nm):
        return nm in self.params or nm in self.stores or nm in self.nested

    def where(self, n):
        return '%s:%d in %s' % (short(self.mod.path), n.lineno, self.qual)


def dotted(fn, prog, e):
    """external or package name an expression denotes, or None"""
    if isinstance(e, ast.Attribute):
        b = dotted(fn, prog, e.value)
        return b and '%s.%s' % (b, e.attr)
    if isinstance(e, ast.Name):
        if e.id in fn.imports:
            return fn.imports[e.id]
        if fn.local(e.id):
            return None
        for d in fn.mod.defs.get(e.id, ()):
            if d[0] == 'import':
                return d[1]
            if d[0] == 'from':
                return '%s.%s' % (d[1], d[2])
            if d[0] in ('func', 'class'):
                return '%s.%s' % (fn.mod.name, e.id)
            return '%s.%s' % (fn.mod.name, e.id)
        return 'builtins.' + e.id
    return None


def graph(prog):
    """functions of the two modules and what they call in the package"""
    fns = {}
    work = []
    for m in (SYM, EDGE):
        mod = prog.modules.get(m)
        if mod is None:
            raise Broken('no module %s' % m)
        for node, q, cls in iter_functions(mod.tree):
            if '.' in q and cls is None:
                continue        # nested: part of the enclosing one
            fns['%s.%s' % (m, q)] = Fn(mod, q, node)
            work.append('%s.%s' % (m, q))
    calls = {}
    while work:
        k = work.pop()
        f = fns[k]
        calls[k] = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = dotted(f, prog, n)
                if not d or not d.startswith('gb.'):
                    continue
                d = follow(prog, d)
                if d in fns:
                    calls[k].add(d)
                    continue
                m, _, q = d.rpartition('.')
                if m in prog.modules:
                    for x in prog.modules[m].defs.get(q, ()):
                        if x[0] == 'func':
                            fns[d] = Fn(prog.modules[m], q, x[1])
                            calls[k].add(d)
                            work.append(d)
    return fns, calls


def follow(prog, d, depth=0):
    m, _, q = d.rpartition('.')
    if depth < 6 and m in prog.modules:
        for x in prog.modules[m].defs.get(q, ()):
            if x[0] == 'from':
                return follow(prog, '%s.%s' % (x[1], x[2]), depth + 1)
    return d


def exempt(fns, calls):
    """the functions documented to be random and what only they use"""
    ex = {k for k, f in fns.items() if f.mod.name == SYM and f.qual in RANDOM}
    callers = {}
    for k, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    while True:
        more = {k for k in fns if k not in ex and callers.get(k) and callers[k] - {k} and callers[k] - {k} <= ex and k.rsplit('.', 1)[-1] != 'hashed'
                and fns[k].qual not in KNOWN}
        if not more:
            return ex
        ex |= more


KNOWN = TEXTUAL | {'sym_type', 'parts', 'root', 'nspace', 'is_root', 'build', 'symbol2str', 'is_negative', 'negative', 'atom2str', 'nodes2str', 'edge2str', 'is_edge_collection'}


def y01(prog, rep, tier):
    rep.rules.append('effect analysis of the call graph of the symbol and edge functions: no write to shared state, no source of randomness, time, environment, '
                     'identity or hash order; interpretation of call sequences on lists: arguments unchanged, same result whatever was computed before')
    fns, calls = graph(prog)
    ex = exempt(fns, calls)
    for k, f in sorted(fns.items()):
        rep.functions.add((f.mod.path, f.qual))
        sources(prog, rep, f, k in ex, fns, calls, ex, k)
        state(prog, rep, f)
        orders(prog, rep, f)
        caches(prog, rep, f, k in ex)
    setup(prog)
    arguments(prog, rep)
    history(prog, rep)


# ------------------------------------------------------------------ A: effects
def sources(prog, rep, f, ex, fns, calls, exs, key):
    bad = False
    for why, n in impure(prog, f, f.node, ex):
        bad = True
        rep.bad('not a function of its arguments', f.name, '%s (%s)' % (why, f.where(n)))
    if not ex:
        for c in calls.get(key, ()):
            if c in exs and f.qual in KNOWN:
                bad = True
                rep.bad('not a function of its arguments', f.name, 'its result depends on the random %s' % c)
    if not bad:
        rep.ok('sources of the result')


def impure(prog, f, node, ex, depth=0):
    """[(reason, node)] - what in the expressions below a node is not determined by the arguments"""
    inner = {id(n.value) for n in ast.walk(node) if isinstance(n, ast.Attribute)}
    skip = {id(x) for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for d in n.decorator_list for x in ast.walk(d)}
    out = []
    for n in ast.walk(node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load) and id(n) not in inner and id(n) not in skip:
            d = dotted(f, prog, n)
            if not d:
                continue
            if d in SETTERS:
                out.append(('changes process-wide settings through %s' % d, n))
            elif any(d == r or d.startswith(r + '.') for r in RANDOM_SOURCES):
                if not ex:
                    out.append(('depends on randomness: %s' % d, n))
            elif d.startswith('builtins.') and d[9:] in WORLD_BUILTINS:
                out.append(('depends on %s(), which differs between processes' % d[9:], n))
            elif d not in PURE_WORLD and any(d.startswith(w + '.') for w in WORLD):
                out.append(('depends on the process or its surroundings: %s' % d, n))
            elif d.startswith('gb.') and depth < 4:
                # a module variable is what it was set to when the module was loaded
                m, _, q = follow(prog, d).rpartition('.')
                if m in prog.modules:
                    for x in prog.modules[m].defs.get(q, ()):
                        if x[0] == 'assign':
                            g = Fn(prog.modules[m], '<module>', ast.parse('def load():\n    pass').body[0])
                            for why, _ in impure(prog, g, x[1].value, ex, depth + 1):
                                out.append(('%s, which %s' % (q, why), n))
    return out


def target_root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e


def shared(f, prog, e):
    """name of the shared object an expression is part of, or None"""
    r = target_root(e)
    if not isinstance(r, ast.Name):
        return None
    if r.id in f.globals:
        return r.id
    if f.local(r.id):
        return None
    if r.id in f.mod.defs or r.id in f.imports:
        return r.id
    return None


def memo(f, stmt):
    """every key of the text functions is a text: a table kept under it can be right"""
    return f.qual in TEXTUAL or f.qual not in KNOWN | RANDOM


def state(prog, rep, f):
    bad = False
    for n in ast.walk(f.node):
        tgts = []
        if isinstance(n, ast.Assign):
            tgts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgts = [n.target]
        elif isinstance(n, ast.Delete):
            tgts = n.targets
        for t in tgts:
            for e in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(e, ast.Name):
                    if e.id not in f.globals:
                        continue
                    v = getattr(n, 'value', None)
                    dep = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} if v is not None else set()
                    if isinstance(n, ast.Assign) and not (dep & (set(f.params) | f.stores | f.globals)):
                        rep.undec('%s sets the module variable %s to something fixed' % (f.name, e.id))
                        continue
                    bad = True
                    rep.bad('shared state', f.name, 'writes the module variable %s (%s)' % (e.id, f.where(n)))
                elif isinstance(e, (ast.Attribute, ast.Subscript)):
                    s = shared(f, prog, e)
                    if s is None:
                        continue
                    if isinstance(e, ast.Subscript) and memo(f, n):
                        rep.undec('%s keeps results in %s' % (f.name, s))
                        continue
                    bad = True
                    rep.bad('shared state', f.name, 'writes into %s, which outlives the call (%s)' % (s, f.where(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            s = shared(f, prog, n.func.value)
            if s is not None and container(f, n.func.value):
                if n.func.attr in ('setdefault', 'update', 'clear', 'pop', 'popitem') and memo(f, n):
                    rep.undec('%s keeps results in %s' % (f.name, s))
                    continue
                bad = True
                rep.bad('shared state', f.name, 'changes %s, which outlives the call, with %s (%s)' % (s, n.func.attr, f.where(n)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args and shared(f, prog, n.args[0]):
            bad = True
            rep.bad('shared state', f.name, 'sets an attribute of %s (%s)' % (shared(f, prog, n.args[0]), f.where(n)))
    if not bad:
        rep.ok('no shared state')


def container(f, e):
    """a module variable or attribute, not a module or class"""
    if isinstance(e, ast.Name):
        return any(d[0] in ('assign', 'unknown') for d in f.mod.defs.get(e.id, ()))
    return True


def is_set(f, e, depth=0):
    if depth > 4:
        return False
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
            return is_set(f, e.func.value, depth + 1)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(f, e.left, depth + 1) or is_set(f, e.right, depth + 1)
    if isinstance(e, ast.Name):
        asg = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(asg) and all(is_set(f, a, depth + 1) for a in asg)
    return False


def constant_set(e):
    return isinstance(e, ast.Set) and all(isinstance(x, ast.Constant) for x in e.elts) or \
        isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Constant)


def orders(prog, rep, f):
    """the order in which a set is traversed reaches a result"""
    bad = False
    parent = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    for n in ast.walk(f.node):
        hit = None
        if isinstance(n, ast.Call) and n.args and is_set(f, n.args[0]):
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'zip', 'iter', 'map', 'filter', 'reversed'):
                hit = n
            elif isinstance(n.func, ast.Attribute) and n.func.attr == 'join':
                hit = n
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and is_set(f, n.func.value):
            hit = n
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and any(is_set(f, g.iter) for g in n.generators):
            hit = n
        elif isinstance(n, ast.For) and is_set(f, n.iter) and not constant_set(n.iter):
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'insert', 'extend') or isinstance(x, ast.Yield) for b in n.body for x in ast.walk(b)):
                hit = n
            else:
                rep.undec('%s traverses a set' % f.name)
        if hit is None:
            continue
        p = parent.get(hit)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in INSENSITIVE:
            continue
        if isinstance(p, ast.Assign):
            nm = [t.id for t in p.targets if isinstance(t, ast.Name)]
            if nm and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and isinstance(x.func.value, ast.Name) and x.func.value.id in nm
                                                       or isinstance(x.func, ast.Name) and x.func.id in INSENSITIVE and any(isinstance(a, ast.Name) and a.id in nm for a in x.args))
                          for x in ast.walk(f.node)):
                continue
        bad = True
        rep.bad('hash order', f.name, 'the order in which a set happens to be traversed reaches the result (%s)' % f.where(hit))
    if not bad:
        rep.ok('no hash order')


def caches(prog, rep, f, ex):
    bad = False
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        nm = dotted(f, prog, e)
        if nm not in CACHES:
            continue
        if ex:
            bad = True
            rep.bad('cached', f.name, 'a random result is kept and returned again (%s)' % f.where(f.node))
        elif f.qual in TEXTUAL:
            rep.undec('%s keeps its results' % f.name)
        elif f.qual in KNOWN:
            bad = True
            rep.bad('cached', f.name, 'results are kept by argument: equal arguments of different type (1 and 1.0) share one result, and lists cannot be looked up (%s)' % f.where(f.node))
        else:
            rep.undec('%s keeps its results' % f.name)
    if not bad:
        rep.ok('no cache')


# ------------------------------------------------------------------ B: arguments and history
ARGS = {
    'sym.sym_type': ["['a', 'b']", "['a', ['b', 'c']]"],
    'sym.parts': ["['a', 'b']", "['a/1', ['b', 'c/2']]"],
    'sym.root': ["['a', 'b']", "['a/1', ['b', 'c/2']]"],
    'sym.nspace': ["['a', 'b']", "['a/1', ['b', 'c/2']]"],
    'sym.is_root': ["['a', 'b']", "['a/1', ['b', 'c/2']]"],
    'sym.build': ["['a']", "['a', 'b']", "['a', 'b', 'c']"],
    'ed.nodes2str': ["['a', 'b']", "['a', ['b', 'c'], 5]", "[['a', ['b', 2.0]], 'c']", "['b', 'a', 'a']"],
    'ed.edge2str': ["['a', 'b']", "['a', ['b', 'c'], 5]", "[['a', ['b', 2.0]], 'c']", "['b', 'a', 'a']"],
    'ed.is_edge_collection': ["['a', 'b']", "['a', ['b', 'c']]", "[['a', 'b'], ['c', 'd']]", "[('a', 'b'), ['c', 'd', 'e']]", "[['a', 'b'], 'c']"],
    'ed.is_negative': ["['a', 'b']", "['~a', 'b']"],
    'ed.negative': ["['a', 'b']", "['~a', 'b']", "['a', ['b', 'c']]", "('a', ['b', 'c'])", "(['a', 'b'], 'c')"],
    'sym.symbol2str': ["['a', 'b']", "['a/1', ['b', 'c/2']]"],
    'sym.new_meaning': ["['a', 'b']"],
    'sym.is_negative': ["['~', 'b']", "['a', 'b']"],
    'sym.negative': ["['~', 'b']", "['a', 'b']"],
}


def literal(e):
    return ast.literal_eval(e)


def as_term(v):
    if isinstance(v, (list, tuple)):
        return tup(*[as_term(x) for x in v])
    return C(v)


def arguments(prog, rep):
    for fn, args in sorted(ARGS.items()):
        for a in args:
            v = literal(a)
            lists = [i for i, x in enumerate(v) if isinstance(x, list)]
            outs = value(prog, rep, '(x%s)' % ''.join(', isinstance(x[%d], list)' % i for i in lists) if lists else 'x', '%s(%s)' % (fn, a), '    x = %s\n    try:\n        %s(x)\n    except Exception:\n        pass\n' % (a, fn))
            want = tup(as_term(v), *[TRUE for i in lists]) if lists else as_term(v)
            if outs is None:
                continue
            for kd, v in outs:
                if kd == 'raise':
                    continue        # what it fails on is not what this is about
                e = equal(v, want)
                if e:
                    rep.ok('arguments unchanged')
                elif e is None and any(x.op == 'sorted' for x in walk(v)):
                    rep.bad('argument modified', fn, 'it sorts its argument %s' % a)
                elif e is None:
                    rep.undec('%s(%s) leaves %s' % (fn, a, show(v)[:60]))
                else:
                    rep.bad('argument modified', fn, '%s(%s) leaves its argument as %s' % (fn, a, pretty(v)))


HIST = [
    ('sym.sym_type', ["'a'", "5", "5.0", "True", "1", "1.0", "('a', 'b')", "'http://a'"]),
    ('sym.parts', ["'a/b'", "'a'", "1", "1.0", "'http://a/b'", "'a/c'"]),
    ('sym.root', ["'a/b'", "'b/a'", "1", "1.0"]),
    ('sym.nspace', ["'a/b'", "'a'", "1.0"]),
    ('sym.symbol2str', ["'a_b/1'", "1", "1.0", "'a/2'"]),
    ('sym.str2symbol', ["'A b'", "'a B/'", "'A b c'"]),
    ('sym.negative', ["'a'", "'~a'"]),
    ('sym.build', ["['a', 'b']", "['a']"]),
    ('ed.token_type', ["'1'", "'1.0'", "'a'", "'11'"]),
    ('ed.parsed_token', ["'1'", "'1.0'", "'a'", "'(a 1)'", "'(a 1.0)'"]),
    ('ed.split_edge_str', ["'(a b)'", "'(a (b c))'", "'a b'", "'(a (b d))'"]),
    ('ed.str2edge', ["'(a b)'", "'(a (b c))'", "'(a 1)'", "'(a 1.0)'"]),
    ('ed.edge2str', ["('a', 1)", "('a', 1.0)", "('a', ('b', 'c'))", "1", "1.0", "('a', True)"]),
    ('ed.nodes2str', ["('a', 1)", "('a', 1.0)", "('a', 'b', 'c')"]),
    ('ed.open_pars', ["'((a'", "'(a'", "'a'"]),
    ('ed.close_pars', ["'a))'", "'a)'", "'a'"]),
]


def history(prog, rep):
    for fn, args in HIST:
        alone = {}
        for a in args:
            o = value(prog, rep, '%s(%s)' % (fn, a), '%s(%s)' % (fn, a))
            alone[a] = o[0][1] if o is not None and len(o) == 1 and o[0][0] == 'r' else None
        for a in args:
            for b in args:
                if alone[b] is None:
                    continue
                outs = value(prog, rep, '%s(%s)' % (fn, b), '%s(%s) after %s(%s)' % (fn, b, fn, a), '    %s(%s)\n' % (fn, a))
                if outs is None:
                    continue
                for kd, v in outs:
                    if kd == 'raise' and alone[a] is not None:
                        rep.bad('history', fn, '%s(%s) fails after %s(%s)' % (fn, b, fn, a))
                        continue
                    if kd == 'raise':
                        continue
                    e = True if v is alone[b] else equal(v, alone[b])
                    if e:
                        rep.ok('same result after other calls')
                    elif e is None:
                        rep.undec('%s(%s) after %s(%s): %s' % (fn, b, fn, a, show(v)[:60]))
                    else:
                        rep.bad('history', fn, '%s(%s) gives %s after %s(%s), %s otherwise' % (fn, b, pretty(v), fn, a, pretty(alone[b])))
