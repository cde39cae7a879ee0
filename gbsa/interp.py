"""Abstract interpreter over Python source.

States map locations to abstract values (terms); conditions on the path are
kept as facts; effects (database statements, commits, opaque calls, marks)
become nodes of an effect graph.  Loops over collections of unknown size are
solved by a fixpoint: variables that change become phi values, recognised
inductions (counters, list building, queue consumption, flags) get a closed
form, and the body appears once in the effect graph, with a back edge.
"""
import time
import ast
import builtins as pybuiltins

from .terms import (T, mk, C, NONE, TRUE, FALSE, is_c, ground, cv, is_int, mkstr, unstr, one, tup, mktuple, many, spread,
                    known_len, seg_vals, item, add, sub, mul, subst, length, walk, mentions, has)
from .loader import Program, Broken
from . import chars

BUILTIN_NAMES = set(dir(pybuiltins))
EXC_NAMES = {n for n in BUILTIN_NAMES if isinstance(getattr(pybuiltins, n), type)
             and issubclass(getattr(pybuiltins, n), BaseException)}
TYPE_NAMES = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'bytes', 'object', 'type',
              'complex', 'range', 'bytearray'}


class Limit(Exception):
    """Analysis budget exceeded."""


class Clock(object):
    """wall-clock budget: of one analysis, and of the whole run; what is cut off is undecided"""
    one = 90
    end = None


class S(object):
    """Abstract state."""
    __slots__ = ('store', 'facts', 'node')

    def __init__(self, store, facts, node):
        self.store = store
        self.facts = facts
        self.node = node

    def copy(self):
        return S(self.store.copy(), self.facts.copy(), self.node)


class Node(object):
    __slots__ = ('id', 'kind', 'data', 'facts', 'loops', 'where', 'succ', 'ctxinfo')

    def __init__(self, id, kind, data, facts, loops, where):
        self.id = id
        self.kind = kind
        self.data = data
        self.facts = facts
        self.loops = loops
        self.where = where
        self.succ = set()

    def __repr__(self):
        return '<%d %s %s @%s>' % (self.id, self.kind, self.data, self.where)


class Fi(object):
    """Function information."""
    __slots__ = ('fid', 'node', 'mod', 'qual', 'cls', 'params', 'is_gen', 'locals', 'globals', 'nonlocals', 'decor',
                 'captured')

    def __init__(self, fid, node, mod, qual, cls):
        self.fid = fid
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.is_gen = False
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()
        self.captured = False
        self.decor = [] if isinstance(node, ast.Lambda) else node.decorator_list
        c = getattr(node, '_scanned', None)
        if c is not None:
            self.is_gen, self.globals, self.nonlocals, self.locals, self.captured = c
            return
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(p.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self._scan(st)
        self.locals -= self.globals | self.nonlocals
        node._scanned = (self.is_gen, self.globals, self.nonlocals, self.locals, self.captured)

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            self.locals.add(n.name)
            self.captured = True
            return
        if isinstance(n, ast.Lambda):
            self.captured = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets live in the same frame under a private name; see interp
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.comprehension):
                    self._scan(c.iter)
                    for i in c.ifs:
                        self._scan(i)
                else:
                    self._scan(c)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c)


class Frame(object):
    __slots__ = ('fi', 'mod', 'addr', 'ctx', 'stack', 'handler', 'comp')

    def __init__(self, fi, mod, addr, ctx, stack, handler=None, comp=()):
        self.fi = fi
        self.mod = mod
        self.addr = addr
        self.ctx = ctx
        self.stack = stack
        self.handler = handler
        self.comp = comp     # names bound by enclosing comprehensions


class Opts(object):
    def __init__(self, **kw):
        self.opaque = lambda fi: None       # 'pure' | 'event' | None
        self.max_states = 96
        self.max_steps = 600000
        self.unroll = 40
        self.rec_depth = 1
        self.struct_depth = 8               # recursion on values of known structure
        self.frz_depth = 8                  # nesting of values made plain
        self.rec_abort = False              # give up at the recursion limit
        self.finite = False                 # finite-state loops instead of phi loops
        self.saturate = 3
        self.callback_raises = False
        self.opaque_ret = None
        self.rows = None
        self.drop = False
        self.lines = None                   # content of the files opened for reading: lines
        self.extvals = {}                   # values of names of other packages
        self.transparent = None             # decorator name -> bool: calls go to the decorated function
        self.objects = ()                   # terms of unknown objects: method calls on them are events
        for k, v in kw.items():
            setattr(self, k, v)


class Interp(object):
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or Opts()
        self.nodes = []
        self.dry = 0
        self.loops = []
        self.steps = 0
        self.started = time.monotonic()
        self.sinks = [[]]
        self.callstack = []
        self.sites = {}
        self.ctxs = {}
        self.ctx_parent = {}
        self.refcache = {}
        self.gc_at = 400
        self.efacts = {}     # edge of the effect graph -> facts that hold along it
        self.lids = {}
        self.funcs = {}
        self.fids = {}
        self.phi = {}          # phi term -> (init, updates)
        self.diags = {}        # errors: the operation fails for the values it had
        self.passed = set()    # expressions and statements that were evaluated successfully at least once
        self.failed = {}       # diag -> the expressions at which it was seen
        self.imprecise = []
        self.analysed = set()  # functions visited
        self.loop_coll = {}
        self.classes = {}
        self.mros = {}
        self.idents = {}
        self.rowsites = {}
        self.entry = self.newnode('entry', {}, {}, '')

    # -------------------------------------------------------------- small helpers
    def site(self, n, kind=''):
        key = (id(n), kind)
        r = self.sites.get(key)
        if r is None:
            r = len(self.sites)
            self.sites[key] = r
            self.sites[('keep', r)] = n
        return r

    def subctx(self, ctx, key):
        k = (ctx, key)
        r = self.ctxs.get(k)
        if r is None:
            r = len(self.ctxs) + 1
            self.ctxs[k] = r
            self.ctx_parent[r] = ctx
        return r

    def lid(self, fr, n, k):
        key = (fr.ctx, self.site(n), k)
        r = self.lids.get(key)
        if r is None:
            r = len(self.lids) + 1
            self.lids[key] = r
        return r

    def where(self, fr, n):
        stack = fr.stack + ((fr.mod.path, getattr(n, 'lineno', 0), fr.fi.qual if fr.fi else '<module>'),)
        return stack

    def newnode(self, kind, data, facts, where):
        n = Node(len(self.nodes), kind, data, facts, tuple(self.loops), where)
        self.nodes.append(n)
        return n

    def link(self, a, b, facts):
        self.nodes[a].succ.add(b)
        l = self.efacts.setdefault((a, b), [])
        if facts not in l:
            l.append(dict(facts))

    def event(self, s, fr, n, kind, **data):
        """Appends an event to the effect graph after state s."""
        if self.dry:
            return None
        nd = self.newnode(kind, data, dict(s.facts), self.where(fr, n))
        self.link(s.node, nd.id, s.facts)
        s.node = nd.id
        return nd

    def diag(self, fr, n, code, msg):
        if self.dry:
            return
        key = (fr.mod.path, fr.fi.qual if fr.fi else '', code, msg)
        self.diags.setdefault(key, getattr(n, 'lineno', 0))
        self.failed.setdefault(key, {})[id(n)] = n

    def unk(self, fr, n, why=''):
        return mk('unk', fr.ctx, self.site(n), why)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.opts.max_steps:
            raise Limit('step budget exceeded')
        if self.steps & 127 == 0:
            self.late()

    def late(self):
        now = time.monotonic()
        if now > self.started + Clock.one or (Clock.end is not None and now > Clock.end):
            raise Limit('time budget exceeded')

    def raise_(self, s, exc, fr=None, n=None):
        self.sinks[-1].append((s, exc))

    # -------------------------------------------------------------- merging
    def merge(self, sts):
        if len(sts) < 2:
            return sts
        self.late()
        groups = {}
        order = []
        for s in sts:
            k = frozenset(s.store.items())
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out += g
                continue
            byf = {}
            for s in g:
                byf.setdefault(frozenset(s.facts.items()), []).append(s)
            for f, gg in self.resolve(byf).items():
                j = self.join_nodes(gg, dict(f))
                out.append(j)
        if len(out) > self.opts.max_states:
            # coarser: equal stores, intersected facts
            out2 = []
            byk = {}
            for s in out:
                byk.setdefault(frozenset(s.store.items()), []).append(s)
            for k in order:
                gg = byk.get(k)
                if gg:
                    facts = dict(set.intersection(*[set(s.facts.items()) for s in gg]))
                    j = self.join_nodes(gg)
                    j.facts = facts
                    out2.append(j)
            out = out2
        if len(out) > self.opts.max_states:
            self.imprecise.append('states joined')
            base = out[0].copy()
            for s in out[1:]:
                for key in list(base.store):
                    if key not in s.store:
                        del base.store[key]
                    elif s.store[key] is not base.store[key]:
                        if isinstance(key, T):
                            base.store[key] = self.unk_record(base.store[key], key)
                        else:
                            base.store[key] = mk('join?', key)
            base.facts = dict(set.intersection(*[set(s.facts.items()) for s in out]))
            if not self.dry:
                nd = self.newnode('join', {}, {}, '')
                for s in out:
                    self.link(s.node, nd.id, s.facts)
                base.node = nd.id
            out = [base]
        return out

    def unk_record(self, rec, key):
        if rec.op in ('olist', 'oset'):
            return mk(rec.op, (mk('phi', 'join', key),))
        if rec.op == 'odict':
            return mk('odict', (), mk('phi', 'join', key))
        return rec

    def resolve(self, byf):
        """joins states whose facts are complementary, or implied by another's; loses nothing"""
        if len(byf) > 200:
            return byf
        again = True
        while again and len(byf) > 1:
            again = False
            for f in sorted(byf, key=len, reverse=True):
                hit = None
                for item_ in f:
                    c, v = item_
                    if not isinstance(v, bool):
                        continue
                    rest = f - {item_}
                    other = rest | {(c, not v)}
                    if other in byf:
                        hit = (rest, [f, other])
                        break
                    if rest in byf:
                        hit = (rest, [f, rest])
                        break
                if hit is None:
                    for o in byf:
                        if o is not f and o < f:
                            hit = (o, [f, o])
                            break
                if hit:
                    gg = []
                    for x in hit[1]:
                        gg += byf.pop(x, [])
                    byf.setdefault(hit[0], []).extend(gg)
                    again = True
                    break
        return byf

    def join_nodes(self, gg, facts=None):
        s = gg[0]
        src = gg
        ids = {x.node for x in gg}
        if facts is not None and facts != s.facts:
            s = S(s.store, facts, s.node)
        if len(ids) > 1 and not self.dry:
            nd = self.newnode('join', {}, dict(s.facts), '')
            for x in src:
                self.link(x.node, nd.id, x.facts)
            s = S(s.store, s.facts, nd.id)
        return s

    # -------------------------------------------------------------- conditions
    def lt(self, a, b):
        """canonical a < b over integers: returns bool or (cond, polarity)"""
        r = self.cls_cmp(a, b, lambda x, y: x < y)
        if r is not None:
            return r
        if is_c(a) and is_c(b):
            try:
                return cv(a) < cv(b)
            except TypeError:
                return (mk('lt', a, b), True)
        if (is_c(a) and not is_int(a)) or (is_c(b) and not is_int(b)):
            # strings / floats: no integer normalisation, keep both operands
            return (mk('lt', a, b), True)
        d = sub(a, b)
        if is_int(d):
            return cv(d) < 0
        if d.op != 'lin':
            return self.lt1(d, 0)
        const, its = d.a
        if len(its) == 1 and its[0][1] == 1:
            return self.lt1(its[0][0], -const)
        if len(its) == 1 and its[0][1] == -1:
            # -x + const < 0  <=>  x > const  <=>  not x < const+1
            r = self.lt1(its[0][0], const + 1)
            return self.neg(r)
        # canonical sign: first coefficient positive
        if its[0][1] < 0:
            # d < 0 <=> -d > 0 <=> not (-d < 1)
            from .terms import lin
            m = lin(tuple((u, -c) for u, c in its) + ((C(-const), 1),))
            k = m.a[0] if m.op == 'lin' else 0
            base = lin(tuple(m.a[1])) if m.op == 'lin' else m
            return (mk('lt', base, C(1 - k)), False)
        from .terms import lin
        base = lin(tuple(its))
        return (mk('lt', base, C(-const)), True)

    def cls_cmp(self, a, b, fn):
        """comparison of values that depend on characters known by class; None if there are none"""
        vals = []
        found = False
        for t in (a, b):
            o = t.op == 'ord' and is_c(t.a[0], str)
            c = t.a[0] if o else t
            if not is_c(c):
                return None
            found = found or is_c(c, str) and chars.has_sent(cv(c))
            vals.append((cv(c), o))
        if not found:
            return None
        (x, ox), (y, oy) = vals
        r = chars.every(lambda p, q: fn(ord(p) if ox else p, ord(q) if oy else q), x, y)
        if r is None or r[0] != 'v':
            return (mk('cmp', a, b, fn(1, 2), fn(1, 1)), True)
        return r[1]

    def neg(self, r):
        if isinstance(r, bool):
            return not r
        return (r[0], not r[1])

    def lt1(self, x, c):
        """x < c for integer constant c"""
        if x.op in ('len', 'rowcount', 'it', 'ord', 'abs'):
            if c <= 0:
                return False
            if c == 1 and x.op == 'len':
                return (mk('some', x.a[0]), False)
            if c == 1 and x.op == 'rowcount':
                return (mk('changed', x.a[0]), False)
        return (mk('lt', x, C(c)), True)

    def eqc(self, s, a, b):
        """a == b"""
        a = self.frz(s, unstr_key(a))
        b = self.frz(s, unstr_key(b))
        if a is b:
            return True
        if is_c(a) and is_c(b):
            if is_c(a, str) and is_c(b, str) and (chars.has_sent(cv(a)) or chars.has_sent(cv(b))):
                r = chars.same(cv(a), cv(b))
                return r if r is not None else (mk('eq', *sorted((a, b))), True)
            try:
                return cv(a) == cv(b)
            except Exception:
                return False
        r = self.cls_cmp(a, b, lambda x, y: x == y)
        if r is not None:
            return r
        if a.op == 'tuple' and b.op == 'tuple' and all(g.op == 'one' for g in a.a[0] + b.a[0]):
            # known lengths: unequal as soon as one pair is, equal if all pairs are
            if len(a.a[0]) != len(b.a[0]):
                return False
            rs = [self.eqc(s, g.a[0], h.a[0]) for g, h in zip(a.a[0], b.a[0])]
            if any(x is False for x in rs):
                return False
            if all(x is True for x in rs):
                return True
        if a is NONE or b is NONE:
            return self.isnone(s, b if a is NONE else a)
        for x, y in ((a, b), (b, a)):
            if is_int(y) and y.a[0] == 'int':
                if x.op == 'len' and cv(y) == 0:
                    return (mk('some', x.a[0]), False)
                if x.op == 'len' and cv(y) < 0:
                    return False
                if x.op == 'rowcount':
                    if cv(y) == 0:
                        return (mk('changed', x.a[0]), False)
                    if cv(y) == 1:
                        return (mk('changed', x.a[0]), True)
            if is_c(y, bool) and x.op == 'b':
                r = (x.a[0], x.a[1])
                return r if cv(y) else self.neg(r)
            if is_c(y, str):
                if cv(y) == '' :
                    if x.op not in ('unk',):
                        return (mk('some', x), False)
                p = prefix_slice(x)
                if p is not None:
                    base, n = p
                    if n == len(cv(y)):
                        return self.startswith(base, cv(y))
                    if n is not None and n < len(cv(y)):
                        return False
                p = suffix_slice(x)
                if p is not None and p[1] == len(cv(y)):
                    return (mk('endswith', p[0], y), True)
                if x.op == 'str':
                    lit = x.a[0]
                    if isinstance(lit[0], str) and not cv(y).startswith(lit[0]) or \
                            isinstance(lit[-1], str) and not cv(y).endswith(lit[-1]):
                        return False
        if a.op == 'tuple' and b.op == 'tuple' and known_len(a.a[0]) and known_len(b.a[0]):
            va, vb = seg_vals(a.a[0]), seg_vals(b.a[0])
            if len(va) != len(vb):
                return False
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb and ka != kb and not ({ka, kb} <= {'int', 'float', 'bool'}):
            return False
        if a.op == 'ext' and b.op == 'ext' and a.a[0] in TYPE_NAMES and b.a[0] in TYPE_NAMES:
            return a.a[0] == b.a[0]
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof' and y.op == 'ext' and y.a[0] in TYPE_NAMES:
                c = self.inst_cond(s, x.a[0], (y.a[0],))
                if c is False or c is not True and self.known(s, c[0]) is False:
                    return False
        if ka in ('cls', 'func', 'mod') and kb in ('cls', 'func', 'mod'):
            return a is b
        if is_int(a) or is_int(b):
            d = sub(a, b)
            if d.op == 'lin' and len(d.a[1]) == 1:
                u, k = d.a[1][0]
                if k in (1, -1):
                    a, b = u, C(-d.a[0] * k)
        x, y = sorted((a, b))
        return (mk('eq', x, y), True)

    def startswith(self, base, lit):
        parts = base.a[0] if base.op == 'str' else ((cv(base),) if is_c(base, str) else None)
        if lit == '':
            return True
        if parts and isinstance(parts[0], str):
            p = parts[0]
            if len(p) >= len(lit) or len(parts) == 1:
                return p.startswith(lit)
            if not lit.startswith(p):
                return False
        return (mk('startswith', unstr(base), C(lit)), True)

    def isnone(self, s, x):
        if x is NONE:
            return True
        if x.op in ('const', 'tuple', 'str', 'cls', 'func', 'bound', 'mod', 'ref', 'lin', 'len', 'it', 'b', 'rowcount',
                    'range', 'exc', 'suffix', 'meth', 'ext', 'uniq', 'mul', 'rematch'):
            return False
        if x.op == 'item' and x.a[0].op in ('rows', 'anyrows', 'permutations'):
            return False
        if kind_of(x) not in (None, 'NoneType'):
            return False
        return (mk('isnone', x), True)

    def truth(self, s, v):
        """truthiness: bool or (cond, polarity)"""
        if v.op == 'const':
            return bool(cv(v))
        if v.op == 'b':
            return (v.a[0], v.a[1])
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op in ('olist', 'oset'):
                return self.truth_segs(s, r.a[0])
            if r is not None and r.op == 'odict':
                if r.a[0]:
                    return True
                if r.a[1] is None:
                    return False
                return (mk('some', r), True)
            if r is not None and r.op == 'oinst':
                # __bool__/__len__ are not used in the package
                return True
            return True
        if v.op == 'tuple':
            return self.truth_segs(s, v.a[0])
        if v.op == 'item' and v.a[0].op in ('rows', 'anyrows', 'permutations'):
            return True
        if v.op in ('func', 'bound', 'cls', 'mod', 'ext', 'exc', 'meth', 'range', 'rematch'):
            return True
        if v.op == 'str':
            if any(isinstance(p, str) for p in v.a[0]):
                return True
            return (mk('some', unstr(v)), True)
        if v.op == 'len':
            return (mk('some', v.a[0]), True)
        if v.op == 'rowcount':
            return (mk('changed', v.a[0]), True)
        if v.op == 'suffix':
            # non-empty suffix handled by the loop
            return self.lt(v.a[1], mk('len', v.a[0]))
        if v.op in ('lin', 'it'):
            r = self.eqc(s, v, C(0))
            return self.neg(r)
        if v.op == 'call' and v.a[0] in ('re.match', 're.search', 're.fullmatch'):
            return self.neg(self.isnone(s, v))
        return (mk('some', v), True)

    def truth_segs(self, s, segs):
        if any(x.op == 'one' for x in segs):
            return True
        if not segs:
            return False
        if len(segs) == 1:
            g = segs[0]
            if g.op == 'spread':
                return (mk('some', g.a[0]), True)
            if g.op == 'many' and all(not a[0] and any(x.op == 'one' for x in a[1]) for a in g.a[2]):
                return (mk('some', g.a[1]), True)
        return (mk('some', mk('tuple', segs)), True)

    def known(self, s, cond):
        """truth of a canonical condition under the facts: True, False or None"""
        f = s.facts
        if cond in f:
            return f[cond]
        op = cond.op
        if op == 'some':
            x = cond.a[0]
            if x.op == 'const':
                return bool(cv(x))
            if x.op == 'tuple':
                r = self.truth_segs(s, x.a[0])
                if isinstance(r, bool):
                    return r
            for k, v in f.items():
                if v and k.op == 'startswith' and k.a[0] is x:
                    return True
                if v and k.op == 'eq' and x in k.a:
                    o = k.a[0] if k.a[1] is x else k.a[1]
                    if o.op == 'const':
                        return bool(cv(o))
                if k.op == 'lt' and k.a[0].op == 'len' and k.a[0].a[0] is x and is_int(k.a[1]) and not v and cv(k.a[1]) >= 1:
                    return True
                if v and k.op == 'eq' and any(y.op == 'len' and y.a[0] is x for y in k.a):
                    o = [y for y in k.a if not (y.op == 'len' and y.a[0] is x)]
                    if o and is_int(o[0]):
                        return cv(o[0]) > 0
                if k.op == 'isnone' and k.a[0] is x and v:
                    return False
        elif op in ('lt', 'eq') and (is_int(cond.a[-1]) or is_int(cond.a[0])):
            x, c = (cond.a[0], cond.a[1]) if is_int(cond.a[1]) else (cond.a[1], cond.a[0])
            if op == 'lt' and is_int(cond.a[0]):
                return None
            lo, hi = None, None
            if x.op in ('len', 'rowcount', 'it'):
                lo = 0
            c = cv(c)
            ne = set()
            for k, v in f.items():
                if k.op == 'lt' and k.a[0] is x and is_int(k.a[1]):
                    b = cv(k.a[1])
                    if v:
                        hi = b - 1 if hi is None else min(hi, b - 1)
                    else:
                        lo = b if lo is None else max(lo, b)
                elif k.op == 'eq' and x in k.a:
                    o = k.a[0] if k.a[1] is x else k.a[1]
                    if is_int(o):
                        if v:
                            lo = hi = cv(o)
                        else:
                            ne.add(cv(o))
                elif k.op == 'some' and x.op == 'len' and k.a[0] is x.a[0]:
                    if v:
                        lo = max(lo or 0, 1)
                    else:
                        lo = hi = 0
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if op == 'lt':
                if hi is not None and hi < c:
                    return True
                if lo is not None and lo >= c:
                    return False
            else:
                if lo is not None and hi is not None and lo == hi:
                    return lo == c
                if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ne:
                    return False
        elif op == 'eq':
            x, y = cond.a
            for u, w in ((x, y), (y, x)):
                if w.op == 'const':
                    for k, v in f.items():
                        if v and k.op == 'eq' and u in k.a:
                            o = k.a[0] if k.a[1] is u else k.a[1]
                            if o.op == 'const' and o is not w:
                                return False
                        if k.op == 'startswith' and k.a[0] is u and is_c(w, str):
                            if v != cv(w).startswith(cv(k.a[1])):
                                return False
                        if k.op == 'isinst' and k.a[0] is u and v and kind_of(w):
                            if not inst_ok(kind_of(w), k.a[1]):
                                return False
        elif op == 'startswith':
            x, lit = cond.a
            for k, v in f.items():
                if k.op == 'startswith' and k.a[0] is x:
                    o = cv(k.a[1])
                    if v:
                        if o.startswith(cv(lit)):
                            return True
                        if not cv(lit).startswith(o):
                            return False
                    elif cv(lit).startswith(o):
                        return False
                if k.op == 'some' and k.a[0] is x and v is False:
                    return False
                if v and k.op == 'eq' and x in k.a:
                    o = k.a[0] if k.a[1] is x else k.a[1]
                    if is_c(o, str):
                        return cv(o).startswith(cv(lit))
        elif op == 'isinst':
            x, names = cond.a
            kd = kind_of(x)
            if kd:
                return inst_ok(kd, names)
            for k, v in f.items():
                if k.op == 'isinst' and k.a[0] is x:
                    if v and set(k.a[1]) <= set(names):
                        return True
                    if not v and set(names) <= set(k.a[1]):
                        return False
                    if v and disjoint(k.a[1], names):
                        return False
                if v and k.op == 'isnone' and k.a[0] is x:
                    return False
                if v and k.op == 'eq' and x in k.a:
                    o = k.a[0] if k.a[1] is x else k.a[1]
                    if kind_of(o):
                        return inst_ok(kind_of(o), names)
                if v and k.op == 'startswith' and k.a[0] is x:
                    return 'str' in names
        elif op == 'isnone':
            x = cond.a[0]
            for k, v in f.items():
                if v and k.op in ('isinst', 'startswith') and k.a[0] is x:
                    return False
                if v and k.op == 'some' and k.a[0] is x:
                    return False
                if v and k.op == 'eq' and x in k.a:
                    return False
        elif op == 'in':
            x, coll = cond.a
            if coll.op == 'item' and False:
                pass
        return None

    def branch(self, s, r):
        """r: bool or (cond, polarity).  Returns (true state or None, false state or None)."""
        if isinstance(r, bool):
            return (s, None) if r else (None, s)
        cond, pol = r
        k = self.known(s, cond)
        if k is not None:
            return (s, None) if k == pol else (None, s)
        st = s.copy()
        st.facts[cond] = pol
        sf = s
        sf.facts[cond] = not pol
        return st, sf

    def branchv(self, s, v):
        return self.branch(s, self.truth(s, v))

    def bval(self, s, r):
        """condition as a value"""
        if isinstance(r, bool):
            return C(r)
        k = self.known(s, r[0])
        if k is not None:
            return C(k == r[1])
        return mk('b', r[0], r[1])

    # -------------------------------------------------------------- freezing heap values
    def frz(self, s, v, depth=0):
        if not isinstance(v, T):
            return v
        if v.op == 'ref':
            r = s.store.get(v)
            if r is None or depth > self.opts.frz_depth:
                return v
            if r.op == 'olist':
                return mk('tuple', self.frz_segs(s, r.a[0], depth + 1))
            if r.op == 'oset':
                return mk('uniq', mk('tuple', self.frz_segs(s, r.a[0], depth + 1)))
            if r.op == 'odict':
                return mk('dict', tuple((self.frz(s, k, depth + 1), self.frz(s, x, depth + 1)) for k, x in r.a[0]), r.a[1])
            return v
        if v.op == 'tuple':
            segs = self.frz_segs(s, v.a[0], depth + 1)
            return v if segs is v.a[0] else mk('tuple', segs)
        if v.op in ('b', 'const', 'param', 'func', 'cls', 'ext', 'unk', 'rows', 'it', 'mod'):
            return v
        return v

    def frz_segs(self, s, segs, depth):
        out = []
        ch = False
        for g in segs:
            if g.op == 'one':
                x = self.frz(s, g.a[0], depth)
                if x is not g.a[0]:
                    ch = True
                    g = one(x)
            elif g.op == 'many':
                L, c, alts = g.a
                nalts = tuple((f, self.frz_segs(s, sg, depth)) for f, sg in alts)
                if any(x[1] is not y[1] for x, y in zip(nalts, alts)):
                    ch = True
                    g = mk('many', L, c, nalts)
            out.append(g)
        return tuple(out) if ch else segs

    # -------------------------------------------------------------- heap
    def alloc(self, s, fr, n, rec, kind=''):
        ref = mk('ref', fr.ctx, self.site(n, kind))
        s.store[ref] = rec
        return ref

    def segs_of(self, s, v):
        """segments of a sequence value, or None"""
        if v.op == 'tuple':
            return v.a[0]
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op == 'olist':
                return r.a[0]
            if r is not None and r.op == 'oset':
                u = self.uniq_segs(s, r.a[0])
                if u is not None:
                    return u
                return (spread(mk('uniq', mk('tuple', self.frz_segs(s, r.a[0], 0)))),)
            if r is not None and r.op == 'odict':
                if r.a[1] is None:
                    return tuple(one(k) for k, _ in r.a[0])
                return (spread(mk('keys', r)),)
            if r is not None and r.op == 'ofile':
                return tuple(one(l) for l in r.a[0][r.a[1]:])
        if v.op == 'uniq' and v.a[0].op == 'tuple':
            u = self.uniq_segs(s, v.a[0].a[0])
            if u is not None:
                return u
        if is_c(v, str) and len(cv(v)) <= max(400, self.opts.unroll):
            return tuple(one(C(ch)) for ch in cv(v))
        if v.op == 'range':
            lo, hi, st = v.a
            if is_int(lo) and is_int(hi) and is_int(st) and cv(st):
                r = range(cv(lo), cv(hi), cv(st))
                if len(r) <= 5200:
                    return tuple(one(C(i)) for i in r)
        if v.op == 'zip':
            ss = [self.segs_of(s, c) for c in v.a]
            if all(x is not None and known_len(x) for x in ss) and ss:
                return tuple(one(tup(*vals)) for vals in zip(*[seg_vals(x) for x in ss]))
        if v.op == 'enum':
            x = self.segs_of(s, v.a[0])
            if x is not None and known_len(x):
                return tuple(one(tup(add(v.a[1], C(i)), g)) for i, g in enumerate(seg_vals(x)))
        if v.op == 'reversed':
            x = self.segs_of(s, v.a[0])
            if x is not None and known_len(x):
                return tuple(reversed(x))
        if v.op == 'items' or v.op == 'values':
            r = v.a[0]
            if r.op == 'odict' and r.a[1] is None:
                if v.op == 'items':
                    return tuple(one(tup(k, x)) for k, x in r.a[0])
                return tuple(one(x) for k, x in r.a[0])
        if v.op == 'permutations':
            x = self.segs_of(s, v.a[0])
            if x is not None and known_len(x) and len(x) <= 6:
                import itertools
                r = seg_vals(x)
                k = len(r) if v.a[1] is NONE else (cv(v.a[1]) if is_int(v.a[1]) else None)
                if k is not None:
                    return tuple(one(tup(*p)) for p in itertools.permutations(r, k))
        return None

    def uniq_segs(self, s, segs):
        """elements of a set built from segs, if it is known which of them coincide"""
        if not all(g.op == 'one' for g in segs):
            return None
        u = tuple(dict.fromkeys(segs))
        if all(self.gr(s, g.a[0]) for g in u):
            return u
        if len(u) > 64:
            return None
        for i, g in enumerate(u):
            for h in u[:i]:
                if not self.differ(s, g.a[0], h.a[0]):
                    return None
        return u

    def differ(self, s, x, y):
        """x and y are certainly not equal"""
        if x is y:
            return False
        if is_c(x) and is_c(y):
            return not (chars.has_sent(cv(x)) or chars.has_sent(cv(y))) and cv(x) != cv(y) or \
                is_c(x, str) and is_c(y, str) and chars.same(cv(x), cv(y)) is False
        if x.op == 'tuple' and y.op == 'tuple':
            if not (all(g.op == 'one' for g in x.a[0]) and all(g.op == 'one' for g in y.a[0])):
                return False
            if len(x.a[0]) != len(y.a[0]):
                return True
            return any(self.differ(s, g.a[0], h.a[0]) for g, h in zip(x.a[0], y.a[0]))
        if is_c(x) and y.op == 'tuple' or is_c(y) and x.op == 'tuple':
            return True
        return s.facts.get(mk('eq', x, y)) is False or s.facts.get(mk('eq', y, x)) is False

    def as_segs(self, s, v):
        """segments for building a sequence from any iterable value"""
        x = self.segs_of(s, v)
        if x is not None:
            return x
        return (spread(self.frz(s, v)),)


# ------------------------------------------------------------------ helpers on terms
def unstr_key(t):
    return unstr(t)


def prefix_slice(x):
    """x = base[:n] or base[0] -> (base, n)"""
    if x.op == 'slice' and x.a[3] is NONE and (x.a[1] is NONE or (is_int(x.a[1]) and cv(x.a[1]) == 0)) and is_int(x.a[2]) and cv(x.a[2]) > 0:
        return x.a[0], cv(x.a[2])
    if x.op == 'item' and is_int(x.a[1]) and cv(x.a[1]) == 0 and x.a[0].op in ('param', 'str', 'item', 'attr', 'mcall', 'call', 'slice', 'phi'):
        return None
    return None


def suffix_slice(x):
    if x.op == 'slice' and x.a[3] is NONE and x.a[2] is NONE and is_int(x.a[1]) and cv(x.a[1]) < 0:
        return x.a[0], -cv(x.a[1])
    return None


KINDS = {'tuple': 'tuple', 'str': 'str', 'cls': 'cls', 'func': 'func', 'bound': 'func', 'mod': 'mod', 'len': 'int', 'it': 'int',
         'rowcount': 'int', 'b': 'bool', 'lin': None, 'join': 'str', 'range': 'range', 'uniq': 'set', 'dict': 'dict'}


def kind_of(x):
    if x.op == 'const':
        return x.a[0]
    if x.op == 'mcall' and x.a[1] in STR_METHODS_STR:
        return 'str'
    if x.op == 'call' and x.a[0] in CALL_KINDS:
        return CALL_KINDS[x.a[0]]
    return KINDS.get(x.op)


STR_METHODS_STR = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'join', 'title', 'capitalize', 'format',
                   'casefold', 'translate', 'zfill', 'removeprefix', 'removesuffix', 'ljust', 'rjust'}
CALL_KINDS = {'gb.hypergraph.edge.edge2str': 'str', 'gb.hypergraph.edge.nodes2str': 'str',
              'gb.hypergraph.edge.atom2str': 'str', 'int': 'int', 'float': 'float', 'len': 'int', 'repr': 'str', 'hex': 'str',
              'numpy.format_float_positional': 'str'}
BUILTIN_TYPES = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'bytes', 'NoneType', 'range', 'func', 'cls', 'mod'}


def inst_ok(kind, names):
    names = set(names)
    if 'object' in names:
        return True
    if kind in names:
        return True
    if kind == 'bool' and 'int' in names:
        return True
    if kind == 'NoneType':
        return 'type(None)' in names
    return False


def disjoint(a, b):
    a, b = set(a), set(b)
    if 'object' in a | b:
        return False
    if not (a <= BUILTIN_TYPES and b <= BUILTIN_TYPES):
        # a class of the package never is a builtin container
        return bool((a <= BUILTIN_TYPES) != (b <= BUILTIN_TYPES)) and all('.' in x or ':' in x for x in (b if a <= BUILTIN_TYPES else a))
    if ('bool' in a and 'int' in b) or ('bool' in b and 'int' in a):
        return False
    return not (a & b)
