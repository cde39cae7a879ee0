"""Evaluation of expressions and statements."""
import ast

from .terms import (T, mk, C, NONE, TRUE, FALSE, is_c, ground, cv, is_int, mkstr, unstr, one, tup, mktuple, many, spread,
                    known_len, seg_vals, item, add, sub, mul, subst, length, walk, mentions, has, lin, str_parts)
from . import chars
from .interp import (Interp, Fi, Frame, S, Limit, EXC_NAMES, TYPE_NAMES, BUILTIN_NAMES, kind_of, inst_ok)

UNBOUND = mk('unbound')


class Exec(Interp):
    # ============================================================== names
    def func_value(self, s, fr_mod, node, qual, cls, env, defaults):
        fid = self.fids.get(id(node))
        if fid is None:
            fid = len(self.fids)
            self.fids[id(node)] = fid
            self.funcs[fid] = Fi(fid, node, fr_mod, qual, cls)
        return mk('func', fid, env, defaults)

    def fi_of(self, fv):
        return self.funcs[fv.a[0]]

    def lookup(self, s, fr, n, name):
        """list of (s, value)"""
        if name in fr.comp or (fr.fi is not None and fr.addr is not None):
            addr = fr.addr
            fi = fr.fi
            if fi is None or name not in fi.globals:
                own = True
                while addr is not None:
                    v = s.store.get((addr, name))
                    if v is not None:
                        if v is UNBOUND:
                            self.raise_(s, mk('exc', 'UnboundLocalError', ()), fr, n)
                            return []
                        return [(s, v)]
                    if fi is not None and own and addr.a[-1] != 'comp' and name in fi.locals:
                        self.diag(fr, n, 'unbound', 'local variable %s is used before assignment' % name)
                        self.raise_(s, mk('exc', 'UnboundLocalError', ()), fr, n)
                        return []
                    own = own and addr.a[-1] == 'comp'
                    addr = s.store.get((addr, '#parent'))
        return self.glob(s, fr, n, fr.mod, name)

    def glob(self, s, fr, n, mod, name, quiet=False):
        key = ('G', mod.name, name)
        v = s.store.get(key)
        if v is not None:
            return [(s, v)]
        ds = mod.defs.get(name)
        if ds:
            v = self.resolve_def(s, mod, name, ds)
            if v is None:
                # evaluated assignment
                d = ds[-1]
                if len(ds) == 1 and d[0] == 'assign':
                    gfr = self.modframe(mod)
                    out = []
                    for s2, val in self.ev(d[1].value, gfr, s):
                        if d[2] is not None:
                            val = self.getidx(s2, gfr, d[1], val, C(d[2]))
                        if val.op == 'ref' or True:
                            s2.store[key] = val
                        out.append((s2, val))
                    return out
                return [(s, mk('global', mod.name, name))]
            return [(s, v)]
        if name in BUILTIN_NAMES or name in ('mark', 'assume', 'opaque', 'faults', 'unknown', 'obj', 'fail'):
            if name in EXC_NAMES:
                return [(s, mk('cls', name))]
            if name == 'None':
                return [(s, NONE)]
            return [(s, mk('ext', name))]
        if name in ('__name__', '__file__', '__doc__'):
            return [(s, mk('global', mod.name, name))]
        if not quiet and 'star' not in mod.defs and '*' not in mod.defs:
            self.diag(fr, n, 'undefined', 'name %s is not defined' % name)
        self.raise_(s, mk('exc', 'NameError', ()), fr, n)
        return []

    def modframe(self, mod):
        return Frame(None, mod, None, self.subctx(0, ('mod', mod.name)), ())

    def resolve_def(self, s, mod, name, ds):
        d = ds[-1]
        k = d[0]
        if len(ds) > 1 and all(x[0] in ('import', 'from') for x in ds):
            # e.g. try: import a except ImportError: import b  -> the first
            d = ds[0]
            k = d[0]
        if k == 'func':
            v = self.func_value(s, mod, d[1], d[1].name, None, None, None)
            return self.decorate(s, mod, d[1], v)
        if k == 'class':
            return mk('cls', mod.name + ':' + d[1].name)
        if k == 'import':
            return self.modval(d[1])
        if k == 'from':
            return self.from_import(s, d[1], d[2])
        if k == 'unknown':
            return mk('global', mod.name, name)
        return None

    def modval(self, dotted):
        if self.prog.is_pkg_prefix(dotted):
            return mk('mod', dotted)
        return mk('ext', CANON.get(dotted, dotted))

    def from_import(self, s, modname, name):
        if modname == '__future__':
            return mk('ext', '__future__')
        if self.prog.is_pkg_prefix(modname + '.' + name):
            return mk('mod', modname + '.' + name)
        m = self.prog.modules.get(modname)
        if m is not None:
            r = self.glob(s, self.modframe(m), m.tree, m, name, quiet=True)
            return r[0][1] if r else mk('missing', modname, name)
        full = CANON.get(modname, modname) + '.' + name
        return self.opts.extvals.get(full) or mk('ext', full)

    def decorate(self, s, mod, node, v):
        for d in reversed(node.decorator_list):
            v = mk('decorated', v, self.dec_name(mod, d))
        return v

    def dec_name(self, mod, d):
        if isinstance(d, ast.Call):
            d = d.func
        parts = []
        while isinstance(d, ast.Attribute):
            parts.append(d.attr)
            d = d.value
        if isinstance(d, ast.Name):
            ds = mod.defs.get(d.id)
            base = d.id
            if ds and ds[-1][0] == 'from':
                base = ds[-1][1] + '.' + ds[-1][2]
            elif ds and ds[-1][0] == 'import':
                base = ds[-1][1]
            parts.append(base)
        return '.'.join(reversed(parts))

    # ============================================================== classes
    def cls_info(self, cid):
        r = self.classes.get(cid)
        if r is not None:
            return r
        modname, cname = cid.split(':')
        mod = self.prog.modules[modname]
        node = None
        for d in mod.defs.get(cname, ()):
            if d[0] == 'class':
                node = d[1]
        r = {'node': node, 'mod': mod, 'bases': [], 'methods': {}, 'attrs': {}, 'ext_base': False}
        self.classes[cid] = r
        if node is None:
            r['ext_base'] = True
            return r
        for b in node.bases:
            v = self.static_expr(mod, b)
            if v is not None and v.op == 'cls' and ':' in v.a[0]:
                r['bases'].append(v.a[0])
            elif v is not None and v.op == 'ext' and v.a[0] == 'object':
                pass
            else:
                r['ext_base'] = True
        if node.keywords:
            r['ext_base'] = r['ext_base'] or any(k.arg != 'metaclass' for k in node.keywords)
        def priv(x):
            return '_%s%s' % (cname.lstrip('_'), x) if x.startswith('__') and not x.endswith('__') else x
        for n in node.body:
            if isinstance(n, (ast.FunctionDef,)):
                decs = [self.dec_name(mod, d) for d in n.decorator_list]
                kind = 'method'
                for d in decs:
                    if d in ('staticmethod', 'classmethod', 'property', 'functools.cached_property'):
                        kind = 'property' if 'propert' in d else d
                    elif d.endswith('.setter'):
                        kind = 'setter'
                    elif d.endswith('contextmanager'):
                        kind = 'contextmanager'
                    elif d.endswith('abstractmethod') or d.endswith('.wraps'):
                        pass
                    else:
                        kind = 'decorated'
                r['methods'].setdefault(priv(n.name), {})[kind] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        r['attrs'][priv(t.id)] = (n.value, None)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                r['attrs'][priv(e.id)] = (n.value, i)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                r['attrs'][n.target.id] = (n.value, None)
            elif isinstance(n, ast.ClassDef):
                r['attrs'][n.name] = (n, 'class')
        return r

    def static_expr(self, mod, e):
        if isinstance(e, ast.Name):
            ds = mod.defs.get(e.id)
            if not ds:
                return mk('cls', e.id) if e.id in EXC_NAMES else mk('ext', e.id)
            return self.resolve_def(S({}, {}, 0), mod, e.id, ds)
        if isinstance(e, ast.Attribute):
            b = self.static_expr(mod, e.value)
            if b is None:
                return None
            if b.op == 'mod':
                m = self.prog.modules.get(b.a[0])
                if self.prog.is_pkg_prefix(b.a[0] + '.' + e.attr):
                    return mk('mod', b.a[0] + '.' + e.attr)
                if m and e.attr in m.defs:
                    return self.resolve_def(S({}, {}, 0), m, e.attr, m.defs[e.attr])
                return None
            if b.op == 'ext':
                return mk('ext', b.a[0] + '.' + e.attr)
        return None

    def mro(self, cid):
        out = self.mros.get(cid)
        if out is not None:
            return out
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            for b in self.cls_info(c)['bases']:
                go(b)
        go(cid)
        self.mros[cid] = out
        return out

    def find_method(self, cid, name, after=None):
        order = self.mro(cid)
        if after is not None:
            order = order[order.index(after) + 1:] if after in order else order
        for c in order:
            i = self.cls_info(c)
            if name in i['methods']:
                return c, 'method', i['methods'][name]
            if name in i['attrs']:
                return c, 'attr', i['attrs'][name]
        return None

    def closed_class(self, cid):
        return not any(self.cls_info(c)['ext_base'] for c in self.mro(cid)) and \
            not self.find_method(cid, '__getattr__') and not self.find_method(cid, '__getattribute__')

    def mangle(self, fr, name):
        if name.startswith('__') and not name.endswith('__') and fr.fi is not None and fr.fi.cls:
            return '_%s%s' % (fr.fi.cls.split(':')[1].lstrip('_'), name)
        return name

    def method_func(self, s, cid, node):
        mod = self.cls_info(cid)['mod']
        cname = cid.split(':')[1]
        return self.func_value(s, mod, node, cname + '.' + node.name, cid, None, None)

    # ============================================================== attribute access
    def getattr_(self, s, fr, n, obj, name):
        name = self.mangle(fr, name)
        op = obj.op
        if op == 'ref':
            v = s.store.get((obj, name))
            r = s.store.get(obj)
            if r is not None and r.op == 'oinst':
                cid = r.a[0]
                m = self.find_method(cid, name) if ':' in cid else None
                if m and m[1] == 'method' and ('property' in m[2]):
                    fv = self.method_func(s, m[0], m[2]['property'])
                    return self.call(s, fr, n, mk('bound', fv, obj), [], {})
                if v is not None:
                    return [(s, v)]
                if m:
                    return self.class_member(s, fr, n, m, obj, mk('cls', cid))
                if name == '__class__':
                    return [(s, mk('cls', cid))]
                if name == '__dict__':
                    return [(s, self.unk(fr, n, '__dict__'))]
                if ':' in cid and self.closed_class(cid) and not name.startswith('__'):
                    if (obj, '#open') in s.store:
                        if not self.class_never_sets(cid, name):
                            return [(s, mk('attr', obj, name))]
                        self.diag(fr, n, 'attribute', '%s object has no attribute %s' % (cid.split(':')[1], name))
                        self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
                        return []
                    if self.class_never_sets(cid, name):
                        self.diag(fr, n, 'attribute', '%s object has no attribute %s' % (cid.split(':')[1], name))
                    self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
                    return []
                return [(s, mk('attr', obj, name))]
            if v is not None:
                return [(s, v)]
            if r is not None and r.op == 'ocur':
                if name == 'rowcount':
                    last = s.store.get((obj, '#last'))
                    return [(s, mk('rowcount', last) if last is not None else self.unk(fr, n, 'rowcount'))]
                if name == 'connection':
                    return [(s, r.a[0])]
                return [(s, mk('meth', obj, name))]
            if r is not None:
                return [(s, mk('meth', obj, name))]
            return [(s, mk('attr', obj, name))]
        if op == 'mod':
            full = obj.a[0] + '.' + name
            m = self.prog.modules.get(obj.a[0])
            if m is not None and name in m.defs:
                return self.glob(s, fr, n, m, name)
            if self.prog.is_pkg_prefix(full):
                return [(s, mk('mod', full))]
            if m is not None and name in ('__name__', '__file__', '__doc__', '__path__', '__dict__'):
                return [(s, mk('global', m.name, name))]
            if m is not None:
                self.diag(fr, n, 'attribute', 'module %s has no attribute %s' % (obj.a[0], name))
                self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
                return []
            return [(s, self.unk(fr, n, full))]
        if op == 'missing':
            self.diag(fr, n, 'import', 'module %s has no name %s' % obj.a)
            return [(s, self.unk(fr, n, 'missing'))]
        if op == 'ext':
            full = obj.a[0] + '.' + name
            return [(s, self.opts.extvals.get(full) or mk('ext', full))]
        if op == 'cls':
            if ':' not in obj.a[0]:
                return [(s, mk('attr', obj, name))]
            m = self.find_method(obj.a[0], name)
            if m:
                return self.class_member(s, fr, n, m, None, obj)
            if name in ('__name__', '__mro__', '__doc__', '__dict__', '__module__', '__bases__'):
                return [(s, mk('attr', obj, name))]
            if self.closed_class(obj.a[0]) and not name.startswith('__'):
                self.diag(fr, n, 'attribute', 'class %s has no attribute %s' % (obj.a[0].split(':')[1], name))
                self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
                return []
            return [(s, mk('attr', obj, name))]
        if op == 'super':
            cid, after, selfv = obj.a
            m = self.find_method(cid, name, after)
            if m:
                return self.class_member(s, fr, n, m, selfv, mk('cls', cid))
            if name == '__init__':
                return [(s, mk('ext', 'object.__init__'))]
            return [(s, mk('attr', obj, name))]
        if op == 'decorated':
            return [(s, mk('attr', obj, name))]
        if op == 'param' and self.obj_class(obj):
            cid = self.obj_class(obj)
        if kind_of(obj) == 'NoneType' and obj is NONE:
            self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
            return []
        if op in ('const', 'str', 'tuple', 'lin', 'func', 'bound') or kind_of(obj) in ('int', 'str', 'tuple', 'bool'):
            kd = {'func': 'func', 'bound': 'func'}.get(op) or kind_of(obj)
            py = {'str': str, 'int': int, 'tuple': tuple, 'bool': bool, 'float': float, 'set': frozenset, 'dict': dict}.get(kd)
            if py is not None and not hasattr(py, name) and not (op == 'tuple' and False):
                # frozen views of lists appear as tuples: their list methods are fine
                if not (kd == 'tuple' and hasattr(list, name)):
                    self.diag(fr, n, 'attribute', '%s object has no attribute %s' % (kd, name))
                    self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
                    return []
            return [(s, mk('meth', obj, name))]
        v = s.store.get((obj, name))
        if v is not None:
            return [(s, v)]
        return [(s, mk('attr', obj, name))]

    def obj_class(self, obj):
        return None

    def class_never_sets(self, cid, name):
        """no method of the class hierarchy (or subclass) assigns self.<name>"""
        cache = self.__dict__.setdefault('_sets', {})
        if not cache:
            cache['#'] = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        cache['#'].add(n.attr)
        return name not in cache['#'] and not (name.startswith('_') and any(name.endswith(x) and x.startswith('__') for x in cache['#']))

    def class_member(self, s, fr, n, m, selfv, clsv):
        c, kind, d = m
        if kind == 'method':
            if 'staticmethod' in d:
                return [(s, self.method_func(s, c, d['staticmethod']))]
            if 'classmethod' in d:
                return [(s, mk('bound', self.method_func(s, c, d['classmethod']), clsv))]
            if 'property' in d and selfv is not None:
                fv = self.method_func(s, c, d['property'])
                return self.call(s, fr, n, mk('bound', fv, selfv), [], {})
            if 'contextmanager' in d:
                fv = mk('decorated', self.method_func(s, c, d['contextmanager']), 'contextlib.contextmanager')
            elif 'method' in d:
                fv = self.method_func(s, c, d['method'])
            elif 'decorated' in d:
                nd = d['decorated']
                fv = self.decorate(s, self.cls_info(c)['mod'], nd, self.method_func(s, c, nd))
            else:
                return [(s, self.unk(fr, n, 'member'))]
            if selfv is None:
                return [(s, fv)]
            return [(s, mk('bound', fv, selfv))]
        val, i = d
        if i == 'class':
            return [(s, self.unk(fr, n, 'nested class'))]
        mod = self.cls_info(c)['mod']
        key = ('G', c, id(val), i)
        if key in s.store:
            return [(s, s.store[key])]
        out = []
        cfr = self.modframe(mod)
        for s2, v in self.ev(val, cfr, s):
            if i is not None:
                v = self.getidx(s2, cfr, val, v, C(i))
            s2.store[key] = v
            out.append((s2, v))
        return out

    # ============================================================== expressions
    def evs(self, nodes, fr, s):
        outs = [(s, [])]
        for nd in nodes:
            nxt = []
            for st, vals in outs:
                for s2, v in self.ev(nd, fr, st):
                    nxt.append((s2, vals + [v]))
            outs = nxt
        return outs

    def ev(self, n, fr, s):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(s, self.unk(fr, n, type(n).__name__))]
        out = m(n, fr, s)
        if out:
            self.passed.add(id(n))
        return out

    def e_Constant(self, n, fr, s):
        if n.value is Ellipsis:
            return [(s, mk('ext', 'Ellipsis'))]
        return [(s, C(n.value))]

    def e_Name(self, n, fr, s):
        return self.lookup(s, fr, n, n.id)

    def e_Attribute(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.value, fr, s):
            out += self.getattr_(s2, fr, n, v, n.attr)
        return out

    def e_Tuple(self, n, fr, s):
        return [(s2, mktuple(g)) for s2, g in self.ev_segs(n.elts, fr, s)]

    def ev_segs(self, elts, fr, s):
        outs = [(s, [])]
        for e in elts:
            nxt = []
            for st, gs in outs:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, fr, st):
                        for s3, sg in self.iter_to_segs(s2, fr, e, v):
                            nxt.append((s3, gs + list(sg)))
                else:
                    for s2, v in self.ev(e, fr, st):
                        nxt.append((s2, gs + [one(v)]))
            outs = nxt
        return outs

    def e_List(self, n, fr, s):
        out = []
        for s2, g in self.ev_segs(n.elts, fr, s):
            out.append((s2, self.alloc(s2, fr, n, mk('olist', tuple(g)))))
        return out

    def e_Set(self, n, fr, s):
        out = []
        for s2, g in self.ev_segs(n.elts, fr, s):
            out.append((s2, self.alloc(s2, fr, n, mk('oset', tuple(g)))))
        return out

    def e_Dict(self, n, fr, s):
        outs = [(s, (), None)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for st, ents, rest in outs:
                if k is None:
                    for s2, d in self.ev(v, fr, st):
                        r = s2.store.get(d) if d.op == 'ref' else None
                        if r is not None and r.op == 'odict' and r.a[1] is None:
                            e2 = ents
                            for kk, vv in r.a[0]:
                                e2 = dict_put(e2, kk, vv)
                            nxt.append((s2, e2, rest))
                        else:
                            nxt.append((s2, ents, self.frz(s2, d)))
                else:
                    for s2, kv in self.evs([k, v], fr, st):
                        nxt.append((s2, dict_put(ents, kv[0], kv[1]), rest))
            outs = nxt
        out = []
        for st, ents, rest in outs:
            out.append((st, self.alloc(st, fr, n, mk('odict', ents, rest))))
        return out

    def e_JoinedStr(self, n, fr, s):
        outs = [(s, [])]
        for p in n.values:
            nxt = []
            for st, parts in outs:
                if isinstance(p, ast.Constant):
                    nxt.append((st, parts + [p.value]))
                else:
                    for s2, v in self.ev(p.value, fr, st):
                        if p.format_spec is not None or p.conversion not in (-1, 115):
                            v = mk('fmt', self.frz(s2, v), p.conversion, ast.dump(p.format_spec) if p.format_spec else '')
                        for s3, vs in self.tostr(s2, fr, n, v):
                            nxt.append((s3, parts + [vs]))
            outs = nxt
        return [(st, mkstr(parts)) for st, parts in outs]

    def e_FormattedValue(self, n, fr, s):
        return self.ev(n.value, fr, s)

    def tostr(self, s, fr, n, v):
        """[(s, value of str(v))]"""
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], '__str__') or self.find_method(r.a[0], '__repr__')
                if m and m[1] == 'method':
                    return self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), v), [], {})
            v = self.frz(s, v)
        if v.op == 'str':
            return [(s, v)]
        if v.op == 'const':
            return [(s, C(str(cv(v))))]
        return [(s, mkstr([v]))]

    def e_BoolOp(self, n, fr, s):
        # short circuit; the value of the last evaluated operand
        isand = isinstance(n.op, ast.And)
        outs = []
        cur = [s]
        for i, e in enumerate(n.values):
            nxt = []
            for st in cur:
                for s2, v in self.ev(e, fr, st):
                    if i == len(n.values) - 1:
                        outs.append((s2, v))
                        continue
                    t, f = self.branchv(s2, v)
                    stop, go = (f, t) if isand else (t, f)
                    if stop is not None:
                        outs.append((stop, C(not isand) if v.op == 'b' else v))
                    if go is not None:
                        nxt.append(go)
            cur = nxt
        return outs

    def e_UnaryOp(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.operand, fr, s):
            if isinstance(n.op, ast.Not):
                out.append((s2, self.bval(s2, self.neg(self.truth(s2, v)))))
            elif isinstance(n.op, ast.USub):
                if is_c(v) and v.a[0] in ('int', 'float', 'bool'):
                    out.append((s2, C(-cv(v))))
                else:
                    out.append((s2, mul(v, C(-1))))
            elif is_c(v) and isinstance(n.op, ast.UAdd):
                out.append((s2, v))
            else:
                out.append((s2, mk('un', type(n.op).__name__, v)))
        return out

    def e_Compare(self, n, fr, s):
        outs = [(s, None, None)]
        # chains are evaluated as conjunctions
        res = []
        cur = []
        for s2, v in self.ev(n.left, fr, s):
            cur.append((s2, v))
        for i, (op, e) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for st, a in cur:
                for s2, b in self.ev(e, fr, st):
                    for s3, val in self.compare(s2, fr, n, op, a, b):
                        if i == len(n.ops) - 1:
                            res.append((s3, val))
                        else:
                            t, f = self.branchv(s3, val)
                            if f is not None:
                                res.append((f, FALSE))
                            if t is not None:
                                nxt.append((t, b))
            cur = nxt
        return res

    def compare(self, s, fr, n, op, a, b):
        """[(s, boolean value)]"""
        neg = False
        r = None
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is NONE or b is NONE:
                r = self.isnone(s, b if a is NONE else a)
            elif a is b:
                r = True
            elif (is_c(a) and is_c(b)) or (a.op == 'cls' and b.op == 'cls'):
                r = False
            elif any(x.op == 'ext' and x.a[0] in ('NotImplemented', 'Ellipsis') and (is_c(y) or y.op in ('ref', 'tuple', 'cls', 'func', 'bound')) for x, y in ((a, b), (b, a))):
                r = False
            elif is_c(a, bool) or is_c(b, bool):
                r = self.eqc(s, a, b)
            elif a.op == 'ref' and b.op == 'ref':
                r = False
            else:
                r = self.typecmp(s, a, b)
                if r is None:
                    x, y = sorted((a, b))
                    r = (mk('is', x, y), True)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            e = self.user_eq(s, fr, n, a, b, neg)
            if e is not None:
                return e
            r = self.typecmp(s, a, b)
            if r is None:
                r = self.eqc(s, a, b)
                if not isinstance(r, bool) and r[0].op == 'eq':
                    r = self.eq_refine(s, r)
        elif isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            rs = self.contains(s, fr, n, a, b)
            return [(s2, self.bval(s2, self.neg(x) if neg else x)) for s2, x in rs]
        elif isinstance(op, ast.Lt):
            r = self.lt(a, b)
        elif isinstance(op, ast.Gt):
            r = self.lt(b, a)
        elif isinstance(op, ast.LtE):
            r = self.neg(self.lt(b, a))
        elif isinstance(op, ast.GtE):
            r = self.neg(self.lt(a, b))
        if r is None:
            return [(s, self.unk(fr, n, 'cmp'))]
        if neg:
            r = self.neg(r)
        return [(s, self.bval(s, r))]

    def eq_refine(self, s, r):
        """s[0] == c on a value known to be a string is a prefix test"""
        x, y = r[0].a
        for u, w in ((x, y), (y, x)):
            if u.op == 'item' and is_c(w, str) and is_int(u.a[1]) and cv(u.a[1]) == 0 and len(cv(w)) == 1:
                k = self.known(s, mk('isinst', u.a[0], ('str',)))
                if k:
                    q = self.startswith(u.a[0], cv(w))
                    return q if isinstance(q, bool) else (q[0], q[1] == r[1])
        return r

    def identity(self, cid):
        """instances of the class are equal only to themselves: True; cannot be put in sets: False; not known: None"""
        r = self.idents.get(cid, 0)
        if r == 0:
            if not self.closed_class(cid):
                r = None
            else:
                e, h = self.find_method(cid, '__eq__'), self.find_method(cid, '__hash__')
                r = True if not e and not h else None
                if e and not h:
                    r = False
                elif e and h and h[1] == 'method':
                    order = self.mro(cid)
                    if order.index(e[0]) < order.index(h[0]):
                        r = False
            self.idents[cid] = r
        return r

    def gr(self, s, t):
        """completely known, or an object with an identity: two of them are equal exactly if they are the same term"""
        if ground(t):
            return True
        if t.op == 'ref':
            r = s.store.get(t)
            return r is not None and r.op == 'oinst' and ':' in r.a[0] and self.identity(r.a[0]) is True
        if t.op == 'tuple':
            return all(g.op == 'one' and self.gr(s, g.a[0]) for g in t.a[0])
        return False

    def hashable(self, s, fr, n, t):
        if t.op == 'ref':
            r = s.store.get(t)
            kind = None
            if r is not None and r.op in ('olist', 'oset', 'odict'):
                kind = r.op[1:]
            elif r is not None and r.op == 'oinst' and ':' in r.a[0] and self.identity(r.a[0]) is False:
                kind = r.a[0].split(':')[1]
            if kind:
                self.diag(fr, n, 'type', '%s object cannot be hashed' % kind)
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return False
        elif t.op == 'tuple':
            return all(g.op != 'one' or self.hashable(s, fr, n, g.a[0]) for g in t.a[0])
        return True

    def instance(self, s, t):
        """class of an object of the program, or None"""
        if t.op != 'ref':
            return None
        r = s.store.get(t)
        return r.a[0] if r is not None and r.op == 'oinst' and ':' in r.a[0] else None

    def user_eq(self, s, fr, n, a, b, neg):
        """comparison by methods of the program, the reflected one where the first does not apply"""
        ca, cb = self.instance(s, a), self.instance(s, b)
        if ca is None and cb is None:
            return self.seq_eq(s, fr, n, a, b, neg)
        tries = []
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c is None:
                continue
            for name in (('__ne__', '__eq__') if neg else ('__eq__',)):
                m = self.find_method(c, name)
                if m and m[1] == 'method' and 'method' in m[2]:
                    tries.append((x, y, self.method_func(s, m[0], m[2]['method']), neg and name == '__eq__'))
                    break
                if m:
                    return None
        if not tries:
            if ca and cb and self.identity(ca) and self.identity(cb):
                return [(s, C((a is b) != neg))]
            return None
        if len(tries) == 2 and ca != cb and ca in self.mro(cb):
            tries.reverse()
        out, cur = [], [s]
        for x, y, f, inv in tries:
            nxt = []
            for st in cur:
                for s2, v in self.call(st, fr, n, mk('bound', f, x), [y], {}):
                    if v.op == 'ext' and v.a[0] == 'NotImplemented':
                        nxt.append(s2)
                    else:
                        out.append((s2, self.bval(s2, self.neg(self.truth(s2, v)) if inv else self.truth(s2, v)) if inv or not is_c(v) else v))
            cur = nxt
        return out + [(st, C((a is b) != neg)) for st in cur]

    def holds_eq(self, s, segs):
        for v in seg_vals(segs):
            c = self.instance(s, v)
            if c is not None:
                if self.find_method(c, '__eq__'):
                    return True
            elif self.seqkind(s, v) in ('list', 'tuple'):
                g = self.segs_of(s, v)
                if g is not None and known_len(g) and self.holds_eq(s, g):
                    return True
        return False

    def seq_eq(self, s, fr, n, a, b, neg):
        """two lists or tuples of known length with objects in them that define their own equality"""
        if self.seqkind(s, a) and self.seqkind(s, b) and self.seqkind(s, a) != self.seqkind(s, b):
            return [(s, C(neg))]
        if self.seqkind(s, a) != self.seqkind(s, b) or self.seqkind(s, a) not in ('list', 'tuple'):
            return None
        x, y = self.segs_of(s, a), self.segs_of(s, b)
        if x is None or y is None or not known_len(x) or not known_len(y):
            return None
        if not self.holds_eq(s, x) and not self.holds_eq(s, y):
            return None
        if len(x) != len(y):
            return [(s, C(neg))]
        out, cur = [], [s]
        for p, q in zip(seg_vals(x), seg_vals(y)):
            nxt = []
            for st in cur:
                if p is q and p.op == 'ref':
                    nxt.append(st)
                    continue
                for s2, v in self.compare(st, fr, n, ast.Eq(), p, q):
                    t, f = self.branchv(s2, v)
                    if t is not None:
                        nxt.append(t)
                    if f is not None:
                        out.append((f, C(neg)))
            cur = nxt
        return out + [(st, C(not neg)) for st in cur]

    def typecmp(self, s, a, b):
        """type(x) == T, x.__class__ is T"""
        for x, y in ((a, b), (b, a)):
            if x.op == 'typeof':
                nm = self.type_name(y)
                if nm:
                    return self.inst_cond(s, x.a[0], (nm,))
        if a.op in ('ext', 'cls') and b.op in ('ext', 'cls'):
            # two classes by name
            x, y = self.type_name(a), self.type_name(b)
            if x and y and all(v.op == 'cls' or v.a[0] in TYPE_NAMES for v in (a, b)):
                return x == y
        return None

    def type_name(self, t):
        if t.op == 'ext' and t.a[0] in TYPE_NAMES:
            return t.a[0]
        if t.op == 'cls':
            return t.a[0]
        if t.op == 'ext':
            return t.a[0]
        return None

    def inst_cond(self, s, x, names):
        names = tuple(sorted(set(names)))
        if x.op == 'ref':
            r = s.store.get(x)
            if r is not None:
                kd = {'olist': 'list', 'oset': 'set', 'odict': 'dict'}.get(r.op)
                if kd:
                    return inst_ok(kd, names)
                if r.op == 'oinst':
                    order = self.mro(r.a[0]) if ':' in r.a[0] else [r.a[0]]
                    return any(c in names for c in order) or 'object' in names
        kd = kind_of(x)
        if x.op == 'tuple':
            kd = 'tuple'
        if kd:
            return inst_ok(kd, names)
        return (mk('isinst', x, names), True)

    def contains(self, s, fr, n, x, coll):
        """[(s, bool or (cond, pol))]"""
        if coll.op == 'ref':
            r = s.store.get(coll)
            if r is not None and r.op in ('odict', 'oset') and not self.hashable(s, fr, n, x):
                return []
            if r is not None and r.op in ('olist', 'oset'):
                return self.contains_segs(s, fr, n, x, r.a[0])
            if r is not None and r.op == 'odict':
                if r.a[1] is None and all(is_c(k) for k, _ in r.a[0]) and is_c(x):
                    return [(s, any(k is x for k, _ in r.a[0]))]
                if any(k is x for k, _ in r.a[0]):
                    return [(s, True)]
                if r.a[1] is None and self.gr(s, x) and all(self.gr(s, k) for k, _ in r.a[0]):
                    return [(s, False)]
                if not r.a[0] and r.a[1] is None:
                    return [(s, False)]
                return [(s, (mk('in', self.frz(s, x), self.frz(s, coll)), True))]
        if coll.op == 'tuple':
            return self.contains_segs(s, fr, n, x, coll.a[0])
        if coll.op == 'keys':
            return [(s, (mk('in', self.frz(s, x), coll.a[0]), True))]
        if is_c(coll, str) and is_c(x, str):
            if chars.has_sent(cv(x)) or chars.has_sent(cv(coll)):
                r = chars.every(lambda p, q: p in q, cv(x), cv(coll))
                return [(s, r[1] if r else (mk('in', x, coll), True))]
            return [(s, cv(x) in cv(coll))]
        if is_c(coll, str) and len(cv(coll)) <= 8 and x.op == 'item':
            # a single character of a string
            return self.contains_segs(s, fr, n, x, tuple(one(C(ch)) for ch in cv(coll)))
        if coll.op == 'str' and is_c(x, str):
            if any(isinstance(p, str) and cv(x) in p for p in coll.a[0]):
                return [(s, True)]
        return [(s, (mk('in', self.frz(s, unstr(x)), self.frz(s, unstr(coll))), True))]

    def contains_segs(self, s, fr, n, x, segs):
        if not segs:
            return [(s, False)]
        if self.gr(s, x) and all(g.op == 'one' and self.gr(s, g.a[0]) for g in segs):
            return [(s, any(g.a[0] is x for g in segs))]
        if x.op == 'ref' and any(g.op == 'one' and g.a[0] is x for g in segs):
            return [(s, True)]
        if all(g.op == 'one' for g in segs) and len(segs) <= (64 if self.instance(s, x) else 16):
            out = []
            cur = [s]
            for g in segs:
                nxt = []
                for st in cur:
                    for s2, v in self.compare(st, fr, n, ast.Eq(), x, g.a[0]):
                        t, f = self.branchv(s2, v)
                        if t is not None:
                            out.append((t, True))
                        if f is not None:
                            nxt.append(f)
                cur = nxt
            # merge: all distinct true outcomes stay separate
            return out + [(st, False) for st in cur]
        rest = [g for g in segs if g.op != 'one']
        if any(g.op == 'one' and g.a[0] is x for g in segs):
            return [(s, True)]
        return [(s, (mk('in', self.frz(s, x), mk('tuple', self.frz_segs(s, segs, 0))), True))]

    def e_IfExp(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.test, fr, s):
            t, f = self.branchv(s2, v)
            if t is not None:
                out += self.ev(n.body, fr, t)
            if f is not None:
                out += self.ev(n.orelse, fr, f)
        return out

    def e_NamedExpr(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.value, fr, s):
            s2.store[(fr.addr, n.target.id)] = v
            out.append((s2, v))
        return out

    def e_Lambda(self, n, fr, s):
        outs = []
        dfl = n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        for s2, vals in self.evs(dfl, fr, s):
            fv = self.func_value(s2, fr.mod, n, (fr.fi.qual + '.' if fr.fi else '') + '<lambda>', fr.fi.cls if fr.fi else None,
                                 fr.addr, tuple(vals))
            outs.append((s2, fv))
        return outs

    def e_Starred(self, n, fr, s):
        return self.ev(n.value, fr, s)

    def e_Await(self, n, fr, s):
        return self.ev(n.value, fr, s)

    def e_Yield(self, n, fr, s):
        out = []
        vals = self.ev(n.value, fr, s) if n.value is not None else [(s, NONE)]
        for s2, v in vals:
            if fr.handler is None:
                out.append((s2, NONE))
            else:
                for s3 in fr.handler(s2, v):
                    out.append((s3, NONE))
        return out

    def e_YieldFrom(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.value, fr, s):
            if fr.handler is None:
                out.append((s2, NONE))
                continue

            def body(st, x):
                return [(q, 'n', None) for q in fr.handler(st, x)]
            for s3, k, val in self.iterate(s2, fr, n, v, body):
                if k == 'n':
                    out.append((s3, NONE))
        return out

    # -------------------------------------------------------------- arithmetic
    def e_BinOp(self, n, fr, s):
        out = []
        for s2, (a, b) in self.evs([n.left, n.right], fr, s):
            out += self.binop(s2, fr, n, type(n.op).__name__, a, b)
        return out

    def seqkind(self, s, v):
        if v.op == 'tuple':
            return 'tuple'
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None:
                return {'olist': 'list', 'oset': 'set', 'odict': 'dict'}.get(r.op)
        return None

    def strlike(self, v):
        return v.op == 'str' or is_c(v, str) or kind_of(v) == 'str'

    def binop(self, s, fr, n, op, a, b):
        if op == 'Mod' and self.strlike(a):
            return self.percent(s, fr, n, a, b)
        if is_c(a) and is_c(b):
            try:
                x, y = cv(a), cv(b)
                if op == 'Add':
                    r = x + y
                elif op == 'Sub':
                    r = x - y
                elif op == 'Mult':
                    if isinstance(x, str) or isinstance(y, str):
                        if max(x if isinstance(x, int) else 0, y if isinstance(y, int) else 0) > 1000:
                            return [(s, self.unk(fr, n, 'repeat'))]
                    r = x * y
                elif op == 'FloorDiv':
                    r = x // y
                elif op == 'Div':
                    r = x / y
                elif op == 'Mod':
                    r = x % y
                elif op == 'BitOr':
                    r = x | y
                elif op == 'BitAnd':
                    r = x & y
                elif op == 'Pow' and abs(y) < 20:
                    r = x ** y
                else:
                    return [(s, mk('bin', op, a, b))]
                return [(s, C(r))]
            except TypeError:
                self.diag(fr, n, 'type', 'operator %s does not apply to %s and %s' % (op, type(cv(a)).__name__, type(cv(b)).__name__))
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return []
            except Exception:
                self.raise_(s, mk('exc', 'ArithmeticError', ()), fr, n)
                return []
        ka, kb = self.seqkind(s, a), self.seqkind(s, b)
        if op == 'Add':
            if self.strlike(a) or self.strlike(b):
                for x in (a, b):
                    kx = ka if x is a else kb
                    if kx or (kind_of(x) in ('int', 'float', 'NoneType', 'bool')):
                        self.diag(fr, n, 'type', 'operator + does not apply to a string and %s' % (kx or kind_of(x)))
                        self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                        return []
                return [(s, mkstr([a, b]))]
            if ka and kb:
                if ka != kb or ka in ('set', 'dict'):
                    self.diag(fr, n, 'type', 'operator + does not apply to %s and %s' % (ka, kb))
                    self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                    return []
                sg = self.segs_of(s, a) + self.segs_of(s, b)
                return [(s, mktuple(sg) if ka == 'tuple' else self.alloc(s, fr, n, mk('olist', sg)))]
            if ka or kb:
                k = ka or kb
                if k in ('tuple', 'list'):
                    o = b if ka else a
                    if kind_of(o) in ('int', 'str', 'float', 'NoneType', 'bool'):
                        self.diag(fr, n, 'type', 'operator + does not apply to %s and %s' % (k, kind_of(o)))
                        self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                        return []
                    sg = self.as_segs(s, a) + self.as_segs(s, b)
                    return [(s, mktuple(sg) if k == 'tuple' else self.alloc(s, fr, n, mk('olist', sg)))]
            if a.op in ('param', 'item', 'attr', 'mcall', 'call', 'unk', 'slice') and b.op == a.op and False:
                pass
            if kind_of(a) in ('int',) or kind_of(b) in ('int',) or a.op in ('lin', 'len', 'it') or b.op in ('lin', 'len', 'it'):
                return [(s, add(a, b))]
            if is_int(a) or is_int(b):
                return [(s, add(a, b))]
            return [(s, mk('bin', 'Add', a, b))]
        if op in ('Sub', 'BitAnd', 'BitXor', 'BitOr') and (ka == 'set' or a.op == 'uniq'):
            r = self.ground_setop({'Sub': 'difference', 'BitAnd': 'intersection', 'BitXor': 'symmetric_difference', 'BitOr': 'union'}[op],
                                  self.ground_elems(s, a), self.ground_elems(s, b))
            if r is not None:
                return [(s, self.alloc(s, fr, n, mk('oset', r)))]
        if op == 'Sub':
            if ka == 'set':
                return [(s, self.alloc(s, fr, n, mk('oset', (spread(mk('setminus', self.frz(s, a), self.frz(s, b))),))))]
            return [(s, sub(a, b))]
        if op == 'Mult':
            for x, k, y in ((a, ka, b), (b, kb, a)):
                if k in ('list', 'tuple') and is_int(y):
                    sg = self.segs_of(s, x) * max(0, cv(y))
                    return [(s, mktuple(sg) if k == 'tuple' else self.alloc(s, fr, n, mk('olist', sg)))]
                if k in ('list', 'tuple'):
                    L = self.lid(fr, n, 'rep')
                    sg = (mk('many', L, mk('range', C(0), y, C(1)), (((), self.frz_segs(s, self.segs_of(s, x), 0)),)),)
                    return [(s, mktuple(sg) if k == 'tuple' else self.alloc(s, fr, n, mk('olist', sg)))]
            if self.strlike(a) or self.strlike(b):
                return [(s, mk('bin', 'Mult', a, b))]
            return [(s, mul(a, b))]
        if op in ('BitOr', 'BitAnd', 'BitXor') and (ka == 'set' or kb == 'set' or a.op == 'uniq'):
            if op == 'BitOr':
                sg = self.as_segs(s, a) if ka != 'set' else s.store[a].a[0]
                sh = self.as_segs(s, b) if kb != 'set' else s.store[b].a[0]
                return [(s, self.alloc(s, fr, n, mk('oset', sg + sh)))]
            return [(s, self.alloc(s, fr, n, mk('oset', (spread(mk('setop', op, self.frz(s, a), self.frz(s, b))),))))]
        return [(s, mk('bin', op, self.frz(s, a), self.frz(s, b)))]

    def ground_elems(self, s, t):
        """distinct completely known elements of a set, list or tuple; None if some are not known"""
        if t.op == 'uniq':
            t = t.a[0]
        if t.op == 'ref':
            r = s.store.get(t)
            if r is None or r.op not in ('oset', 'olist'):
                return None
            sg = r.a[0]
        elif t.op == 'tuple':
            sg = t.a[0]
        else:
            return None
        out = {}
        for g in sg:
            if g.op == 'one':
                if not self.gr(s, g.a[0]):
                    return None
                out[g.a[0]] = 1
            elif g.op == 'spread' and g.a[0].op in ('tuple', 'uniq'):
                e = self.ground_elems(s, g.a[0])
                if e is None:
                    return None
                out.update((x, 1) for x in e)
            else:
                return None
        return list(out)

    @staticmethod
    def ground_setop(how, a, *bs):
        if a is None or any(b is None for b in bs):
            return None
        for b in bs:
            sb = set(b)
            if how == 'union':
                sa = set(a)
                a = a + [x for x in b if x not in sa]
            elif how == 'intersection':
                a = [x for x in a if x in sb]
            elif how == 'difference':
                a = [x for x in a if x not in sb]
            else:
                sa = set(a)
                a = [x for x in a if x not in sb] + [x for x in b if x not in sa]
        return tuple(one(x) for x in a)

    def percent(self, s, fr, n, a, b):
        parts = str_parts(a)
        if b.op == 'tuple' and known_len(b.a[0]):
            vals = seg_vals(b.a[0])
        elif b.op == 'ref' and self.seqkind(s, b) == 'dict':
            return [(s, mk('bin', 'Mod', a, self.frz(s, b)))]
        elif b.op == 'tuple':
            return [(s, mk('bin', 'Mod', a, self.frz(s, b)))]
        else:
            vals = [b]
        out = []
        vi = 0
        lits = []
        for p in parts:
            if not isinstance(p, str):
                # a hole in the format string itself
                lits.append(p)
                continue
            i = 0
            buf = ''
            while i < len(p):
                ch = p[i]
                if ch != '%':
                    buf += ch
                    i += 1
                    continue
                if i + 1 < len(p) and p[i + 1] == '%':
                    buf += '%'
                    i += 2
                    continue
                # conversion
                j = i + 1
                while j < len(p) and p[j] in '0123456789.+- #':
                    j += 1
                if j >= len(p) or p[j] not in 'srdifgex':
                    return [(s, mk('bin', 'Mod', a, self.frz(s, b)))]
                if vi >= len(vals):
                    self.diag(fr, n, 'type', 'not enough arguments for format string')
                    self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                    return []
                v = vals[vi]
                vi += 1
                lits.append(buf)
                buf = ''
                if j == i + 1 and p[j] in 'di' and s.facts.get(mk('isinst', v, ('float',))):
                    lits.append(mk('fmt', self.frz(s, v), p[i + 1:j + 1]))
                elif j == i + 1 and p[j] in 'sd':
                    lits.append(('v', v))
                elif j == i + 1 and p[j] == 'i':
                    lits.append(('v', v))
                else:
                    lits.append(mk('fmt', self.frz(s, v), p[i + 1:j + 1]))
                i = j + 1
            lits.append(buf)
        if vi < len(vals):
            self.diag(fr, n, 'type', 'not all arguments converted during string formatting')
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        outs = [(s, [])]
        for p in lits:
            if isinstance(p, tuple):
                nxt = []
                for st, acc in outs:
                    for s2, sv in self.tostr(st, fr, n, p[1]):
                        nxt.append((s2, acc + [sv]))
                outs = nxt
            else:
                outs = [(st, acc + [p]) for st, acc in outs]
        return [(st, mkstr(acc)) for st, acc in outs]

    # -------------------------------------------------------------- subscripts
    def e_Subscript(self, n, fr, s):
        out = []
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            nodes = [n.value] + [x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)]
            for s2, (o, lo, hi, st) in self.evs(nodes, fr, s):
                out.append((s2, self.getslice(s2, fr, n, o, lo, hi, st)))
            return out
        for s2, (o, k) in self.evs([n.value, n.slice], fr, s):
            out += self.getidx_all(s2, fr, n, o, k)
        return out

    def getidx_all(self, s, fr, n, o, k):
        if o.op == 'ref':
            r = s.store.get(o)
            if r is not None and r.op == 'odict':
                return self.dict_get(s, fr, n, o, r, k, None, strict=True)
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], '__getitem__')
                if m:
                    return self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), o), [k], {})
        sg = self.segs_of(s, o)
        if sg is not None and known_len(sg) and is_int(k):
            i = cv(k)
            if i < -len(sg) or i >= len(sg):
                self.raise_(s, mk('exc', 'IndexError', ()), fr, n)
                return []
        if o is NONE or is_int(o) or o.op in ('len', 'it', 'func', 'bound', 'b'):
            self.diag(fr, n, 'type', '%s does not support indexing' % (kind_of(o) or 'a function'))
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        if o.op == 'ref' and self.seqkind(s, o) == 'set':
            self.diag(fr, n, 'type', 'a set does not support indexing')
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        if o.op == 'uniq':
            self.diag(fr, n, 'type', 'a set does not support indexing')
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        return [(s, self.getidx(s, fr, n, o, k))]

    def getidx(self, s, fr, n, o, k):
        sg = None
        if o.op == 'ref':
            r = s.store.get(o)
            if r is not None and r.op == 'olist':
                o2 = mk('tuple', r.a[0])
                v = item(o2, k)
                if v.op == 'item' and v.a[0] is o2:
                    return item(self.frz(s, o), k)
                return v
        if o.op in ('range', 'permutations', 'zip', 'enum') or is_c(o, str):
            sg = self.segs_of(s, o)
            if sg is not None and known_len(sg) and is_int(k) and -len(sg) <= cv(k) < len(sg):
                return seg_vals(sg)[cv(k)]
        return item(o, k)

    def dict_get(self, s, fr, n, ref, r, k, default, strict=False):
        """d[k] / d.get(k, default)"""
        if not self.hashable(s, fr, n, k):
            return []
        for kk, vv in r.a[0]:
            if kk is k:
                return [(s, vv)]
        allc = all(is_c(kk) for kk, _ in r.a[0])
        if r.a[1] is None and (is_c(k) and allc or self.gr(s, k) and all(self.gr(s, kk) for kk, _ in r.a[0])) or (r.a[1] is None and not r.a[0]):
            if strict:
                self.raise_(s, mk('exc', 'KeyError', (k,)), fr, n)
                return []
            return [(s, default)]
        if r.a[1] is None and allc and len(r.a[0]) <= 16:
            out = []
            cur = [s]
            for kk, vv in r.a[0]:
                nxt = []
                for st in cur:
                    t, f = self.branch(st, self.eqc(st, k, kk))
                    if t is not None:
                        out.append((t, vv))
                    if f is not None:
                        nxt.append(f)
                cur = nxt
            for st in cur:
                if strict:
                    self.raise_(st, mk('exc', 'KeyError', (k,)), fr, n)
                else:
                    out.append((st, default))
            return out
        fz = self.frz(s, ref)
        g = mk('get', fz, self.frz(s, k))
        if strict:
            return [(s, g)]
        t, f = self.branch(s, (mk('in', self.frz(s, k), fz), True))
        out = []
        if t is not None:
            out.append((t, g))
        if f is not None:
            out.append((f, default))
        return out

    def getslice(self, s, fr, n, o, lo, hi, st):
        if lo is NONE:
            lo2 = C(0)
        else:
            lo2 = lo
        kind = self.seqkind(s, o)
        sg = self.segs_of(s, o) if (kind in ('list', 'tuple') or o.op == 'range') else None
        if sg is not None:
            r = None
            if known_len(sg) and all(x is NONE or is_int(x) for x in (lo, hi, st)):
                a = [None if x is NONE else cv(x) for x in (lo, hi, st)]
                r = sg[slice(*a)]
            elif st is NONE and all(x is NONE or is_int(x) for x in (lo, hi)):
                a, b = (0 if lo is NONE else cv(lo)), (None if hi is NONE else cv(hi))
                r = seg_slice(sg, a, b)
            elif st is NONE and hi is NONE and lo.op == 'len':
                pass
            if r is not None:
                return mktuple(r) if kind == 'tuple' else self.alloc(s, fr, n, mk('olist', tuple(r)))
        if is_c(o, str) and all(x is NONE or is_int(x) for x in (lo, hi, st)):
            a = [None if x is NONE else cv(x) for x in (lo, hi, st)]
            return C(cv(o)[slice(*a)])
        if o.op == 'str' and st is NONE:
            p = list(o.a[0])
            if is_int(lo2) and cv(lo2) >= 0 and (hi is NONE or (is_int(hi) and cv(hi) < 0)):
                k = cv(lo2)
                ok = True
                if k:
                    if isinstance(p[0], str) and len(p[0]) >= k:
                        p[0] = p[0][k:]
                    else:
                        ok = False
                if ok and hi is not NONE:
                    k = -cv(hi)
                    if isinstance(p[-1], str) and len(p[-1]) >= k:
                        p[-1] = p[-1][:len(p[-1]) - k]
                    else:
                        ok = False
                if ok:
                    return mkstr(p)
        fz = self.frz(s, o)
        if o.op == 'suffix' and hi is NONE and st is NONE and is_int(lo2) and cv(lo2) >= 0:
            return mk('suffix', o.a[0], add(o.a[1], lo2))
        if fz.op == 'slice' and hi is NONE and st is NONE and fz.a[2] is NONE and fz.a[3] is NONE and is_int(lo2) and is_int(fz.a[1]) \
                and cv(lo2) >= 0 and cv(fz.a[1]) >= 0:
            v = mk('slice', fz.a[0], C(cv(lo2) + cv(fz.a[1])), NONE, NONE)
        elif lo2 is not NONE and is_int(lo2) and cv(lo2) == 0 and hi is NONE and st is NONE:
            v = fz
        else:
            if lo is not NONE and is_int(lo) and cv(lo) == 0:
                lo = NONE
            v = mk('slice', fz, lo, hi, st)
        if kind == 'list':
            return self.alloc(s, fr, n, mk('olist', (spread(v),)))
        return v

    # -------------------------------------------------------------- comprehensions
    def comp(self, n, fr, s, kind):
        """list/set/dict comprehension: a loop appending to a hidden collection"""
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        addr = fr.addr
        caddr = mk('frame', self.subctx(fr.ctx, ('comp', self.site(n))), 'comp')
        cfr = Frame(fr.fi, fr.mod, caddr, fr.ctx, fr.stack, fr.handler, fr.comp + tuple(names))
        s.store[(caddr, '#parent')] = addr
        rec = {'list': mk('olist', ()), 'set': mk('oset', ()), 'dict': mk('odict', (), None), 'gen': mk('olist', ())}[kind]
        ref = self.alloc(s, fr, n, rec)

        def inner(st, gi):
            if gi == len(n.generators):
                outs = []
                if kind == 'dict':
                    for s2, (k, v) in self.evs([n.key, n.value], cfr, st):
                        r = s2.store[ref]
                        s2.store[ref] = mk('odict', dict_put(r.a[0], k, v), r.a[1])
                        outs.append((s2, 'n', None))
                else:
                    for s2, v in self.ev(n.elt, cfr, st):
                        r = s2.store[ref]
                        s2.store[ref] = mk(r.op, r.a[0] + (one(v),))
                        outs.append((s2, 'n', None))
                return outs
            g = n.generators[gi]
            outs = []
            for s2, it in self.ev(g.iter, cfr, st):
                def body(s3, x):
                    res = []
                    for s4 in self.assign(s3, cfr, g.target, x):
                        cur = [s4]
                        for cnd in g.ifs:
                            nxt = []
                            for s5 in cur:
                                for s6, v in self.ev(cnd, cfr, s5):
                                    t, f = self.branchv(s6, v)
                                    if f is not None:
                                        res.append((f, 'n', None))
                                    if t is not None:
                                        nxt.append(t)
                            cur = nxt
                        for s5 in cur:
                            res += inner(s5, gi + 1)
                    return res
                outs += [o for o in self.iterate(s2, cfr, g.iter, it, body, key=gi)]
            return outs
        out = []
        for s2, k, _v in inner(s, 0):
            for nm in names:
                s2.store.pop((caddr, nm), None)
            out.append((s2, ref))
        return out

    def e_ListComp(self, n, fr, s):
        return self.comp(n, fr, s, 'list')

    def e_SetComp(self, n, fr, s):
        return self.comp(n, fr, s, 'set')

    def e_DictComp(self, n, fr, s):
        return self.comp(n, fr, s, 'dict')

    def e_GeneratorExp(self, n, fr, s):
        return self.comp(n, fr, s, 'gen')

    def quantifier(self, n, fr, s, isall):
        """all(P(x) for x in C) / any(...) as an early-exit loop"""
        g = n.generators
        names = set()
        for gg in g:
            for x in ast.walk(gg.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        caddr = mk('frame', self.subctx(fr.ctx, ('comp', self.site(n))), 'comp')
        cfr = Frame(fr.fi, fr.mod, caddr, fr.ctx, fr.stack, fr.handler, fr.comp + tuple(names))
        s.store[(caddr, '#parent')] = fr.addr

        def inner(st, gi):
            if gi == len(g):
                outs = []
                for s2, v in self.ev(n.elt, cfr, st):
                    t, f = self.branchv(s2, v)
                    if t is not None:
                        outs.append((t, 'n' if isall else 'r', TRUE))
                    if f is not None:
                        outs.append((f, 'r' if isall else 'n', FALSE))
                return outs
            outs = []
            for s2, it in self.ev(g[gi].iter, cfr, st):
                def body(s3, x):
                    res = []
                    for s4 in self.assign(s3, cfr, g[gi].target, x):
                        cur = [s4]
                        for cnd in g[gi].ifs:
                            nxt = []
                            for s5 in cur:
                                for s6, v in self.ev(cnd, cfr, s5):
                                    t, f = self.branchv(s6, v)
                                    if f is not None:
                                        res.append((f, 'n', None))
                                    if t is not None:
                                        nxt.append(t)
                            cur = nxt
                        for s5 in cur:
                            res += inner(s5, gi + 1)
                    return res
                outs += self.iterate(s2, cfr, g[gi].iter, it, body, key=gi)
            return outs
        out = []
        for s2, k, v in inner(s, 0):
            for nm in names:
                s2.store.pop((caddr, nm), None)
            out.append((s2, C(isall) if k == 'n' else C(not isall)))
        return out

    # -------------------------------------------------------------- calls
    def e_Call(self, n, fr, s):
        # all()/any() over a generator expression
        if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and not n.keywords \
                and n.func.id not in fr.mod.defs:
            return self.quantifier(n.args[0], fr, s, n.func.id == 'all')
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in fr.mod.defs:
            return self.do_super(n, fr, s)
        for s2, fv in self.ev(n.func, fr, s):
            for s3, args, kwargs in self.ev_args(n, fr, s2):
                out += self.call(s3, fr, n, fv, args, kwargs)
        return out

    def ev_args(self, n, fr, s):
        outs = [(s, [], {})]
        for a in n.args:
            nxt = []
            for st, args, kw in outs:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, fr, st):
                        sg = self.segs_of(s2, v)
                        if sg is not None and known_len(sg):
                            nxt.append((s2, args + seg_vals(sg), kw))
                        else:
                            nxt.append((s2, args + [mk('starargs', self.frz(s2, v))], kw))
                else:
                    for s2, v in self.ev(a, fr, st):
                        nxt.append((s2, args + [v], kw))
            outs = nxt
        for k in n.keywords:
            nxt = []
            for st, args, kw in outs:
                for s2, v in self.ev(k.value, fr, st):
                    kw2 = dict(kw)
                    if k.arg is None:
                        r = s2.store.get(v) if v.op == 'ref' else None
                        if r is not None and r.op == 'odict' and r.a[1] is None and all(is_c(x, str) for x, _ in r.a[0]):
                            for kk, vv in r.a[0]:
                                kw2[cv(kk)] = vv
                        else:
                            kw2['**'] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((s2, args, kw2))
            outs = nxt
        return outs

    def do_super(self, n, fr, s):
        if n.args:
            out = []
            for s2, vals in self.evs(n.args, fr, s):
                c = vals[0].a[0] if vals[0].op == 'cls' else None
                selfv = vals[1] if len(vals) > 1 else None
                r = s2.store.get(selfv) if selfv is not None and selfv.op == 'ref' else None
                cid = r.a[0] if r is not None and r.op == 'oinst' else c
                out.append((s2, mk('super', cid, c, selfv)))
            return out
        fi = fr.fi
        if fi is None or fi.cls is None:
            return [(s, self.unk(fr, n, 'super'))]
        first = (fi.node.args.posonlyargs + fi.node.args.args)[0].arg
        selfv = s.store.get((fr.addr, first))
        r = s.store.get(selfv) if selfv is not None and selfv.op == 'ref' else None
        cid = r.a[0] if r is not None and r.op == 'oinst' else fi.cls
        return [(s, mk('super', cid, fi.cls, selfv))]

    # ============================================================== statements
    def block(self, stmts, fr, s):
        """outcomes [(s, kind, value)], kind in n r b c"""
        cur = [s]
        done = []
        for st in stmts:
            nxt = []
            for x in cur:
                self.tick()
                for o in self.st(st, fr, x):
                    if o[1] == 'n':
                        nxt.append(o[0])
                    else:
                        done.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
        return [(x, 'n', None) for x in cur] + done

    def st(self, n, fr, s):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.imprecise.append('statement %s' % type(n).__name__)
            return [(s, 'n', None)]
        out = m(n, fr, s)
        if out:
            self.passed.add(id(n))
        return out

    def s_Expr(self, n, fr, s):
        if isinstance(n.value, ast.Constant):
            return [(s, 'n', None)]
        return [(s2, 'n', None) for s2, _ in self.ev(n.value, fr, s)]

    def s_Pass(self, n, fr, s):
        return [(s, 'n', None)]

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, n, fr, s):
        for a in n.names:
            v = self.modval(a.name if a.asname else a.name.split('.')[0])
            s.store[(fr.addr, a.asname or a.name.split('.')[0])] = v
        return [(s, 'n', None)]

    def s_ImportFrom(self, n, fr, s):
        mod = n.module or ''
        for a in n.names:
            s.store[(fr.addr, a.asname or a.name)] = self.from_import(s, mod, a.name)
        return [(s, 'n', None)]

    def s_FunctionDef(self, n, fr, s):
        outs = []
        dfl = n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        for s2, vals in self.evs(dfl, fr, s):
            fv = self.func_value(s2, fr.mod, n, (fr.fi.qual + '.' if fr.fi else '') + n.name, fr.fi.cls if fr.fi else None, fr.addr,
                                 tuple(vals))
            fv = self.decorate(s2, fr.mod, n, fv)
            s2.store[(fr.addr, n.name)] = fv
            outs.append((s2, 'n', None))
        return outs

    def s_ClassDef(self, n, fr, s):
        s.store[(fr.addr, n.name)] = self.unk(fr, n, 'local class')
        return [(s, 'n', None)]

    def s_Return(self, n, fr, s):
        if n.value is None:
            return [(s, 'r', NONE)]
        return [(s2, 'r', v) for s2, v in self.ev(n.value, fr, s)]

    def s_Break(self, n, fr, s):
        return [(s, 'b', None)]

    def s_Continue(self, n, fr, s):
        return [(s, 'c', None)]

    def s_If(self, n, fr, s):
        out = []
        ts, fs = [], []
        for s2, v in self.ev(n.test, fr, s):
            t, f = self.branchv(s2, v)
            if t is not None:
                ts.append(t)
            if f is not None:
                fs.append(f)
        for t in self.merge(ts):
            out += self.block(n.body, fr, t)
        for f in self.merge(fs):
            out += self.block(n.orelse, fr, f) if n.orelse else [(f, 'n', None)]
        return out

    def s_Assert(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.test, fr, s):
            t, f = self.branchv(s2, v)
            if t is not None:
                out.append((t, 'n', None))
            if f is not None:
                self.raise_(f, mk('exc', 'AssertionError', ()), fr, n)
        return out

    def s_Raise(self, n, fr, s):
        if n.exc is None:
            cur = s.store.get('#exc', mk('exc', 'any', ()))
            self.raise_(s, cur, fr, n)
            return []
        for s2, v in self.ev(n.exc, fr, s):
            if v.op == 'cls':
                v = mk('exc', v.a[0], ())
            elif v.op == 'ref':
                r = s2.store.get(v)
                v = mk('exc', r.a[0] if r is not None and r.op == 'oinst' else 'any', ())
            elif v.op != 'exc':
                v = mk('exc', 'any', ())
            self.raise_(s2, v, fr, n)
        return []

    def s_Assign(self, n, fr, s):
        out = []
        for s2, v in self.ev(n.value, fr, s):
            sts = [s2]
            for t in n.targets:
                nxt = []
                for x in sts:
                    nxt += self.assign(x, fr, t, v)
                sts = nxt
            out += [(x, 'n', None) for x in sts]
        return out

    def s_AnnAssign(self, n, fr, s):
        if n.value is None:
            return [(s, 'n', None)]
        out = []
        for s2, v in self.ev(n.value, fr, s):
            out += [(x, 'n', None) for x in self.assign(s2, fr, n.target, v)]
        return out

    def bind(self, s, fr, name, v):
        fi = fr.fi
        if name in fr.comp:
            s.store[(fr.addr, name)] = v
            return
        if fi is not None and name in fi.globals:
            self.event(s, fr, fi.node, 'globalwrite', name=name)
            s.store[('G', fr.mod.name, name)] = v
            return
        if fi is not None and name in fi.nonlocals:
            addr = s.store.get((fr.addr, '#parent'))
            while addr is not None and (addr, name) not in s.store:
                addr = s.store.get((addr, '#parent'))
            if addr is not None:
                s.store[(addr, name)] = v
            return
        if fr.addr is None:
            s.store[('G', fr.mod.name, name)] = v
            return
        # a comprehension frame never owns ordinary names
        addr = fr.addr
        if addr.a[-1] == 'comp':
            addr = s.store.get((addr, '#parent'), addr)
        s.store[(addr, name)] = v

    def assign(self, s, fr, t, v):
        """list of states"""
        if isinstance(t, ast.Name):
            self.bind(s, fr, t.id, v)
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            sg = self.segs_of(s, v)
            sts = [s]
            if not stars:
                if sg is not None and known_len(sg) and len(sg) != len(t.elts):
                    self.diag(fr, t, 'type', 'cannot unpack %d values into %d targets' % (len(sg), len(t.elts)))
                    self.raise_(s, mk('exc', 'ValueError', ()), fr, t)
                    return []
                for i, e in enumerate(t.elts):
                    nxt = []
                    for x in sts:
                        if sg is not None and known_len(sg):
                            val = sg[i].a[0]
                        else:
                            val = self.getidx(x, fr, t, v, C(i))
                        nxt += self.assign(x, fr, e, val)
                    sts = nxt
                return sts
            k = stars[0]
            after = len(t.elts) - k - 1
            for i, e in enumerate(t.elts):
                nxt = []
                for x in sts:
                    if i < k:
                        nxt += self.assign(x, fr, e, self.getidx(x, fr, t, v, C(i)))
                    elif i == k:
                        val = self.getslice(x, fr, e, v, C(k), C(-after) if after else NONE, NONE)
                        if self.seqkind(x, val) != 'list':
                            val = self.alloc(x, fr, e, mk('olist', self.as_segs(x, val)), 'star')
                        nxt += self.assign(x, fr, e.value, val)
                    else:
                        nxt += self.assign(x, fr, e, self.getidx(x, fr, t, v, C(i - len(t.elts))))
                sts = nxt
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for s2, o in self.ev(t.value, fr, s):
                out += self.setattr_(s2, fr, t, o, t.attr, v)
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                out = []
                for s2, o in self.ev(t.value, fr, s):
                    r = s2.store.get(o) if o.op == 'ref' else None
                    if r is not None and r.op == 'olist' and t.slice.lower is None and t.slice.upper is None:
                        s2.store[o] = mk('olist', self.as_segs(s2, v))
                    else:
                        self.mutate(s2, fr, t, o, '[:]=', (v,))
                    out.append(s2)
                return out
            out = []
            for s2, (o, k) in self.evs([t.value, t.slice], fr, s):
                out += self.setitem(s2, fr, t, o, k, v)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(s, fr, t.value, v)
        return [s]

    def setattr_(self, s, fr, n, o, name, v):
        name = self.mangle(fr, name)
        if o.op == 'ref':
            r = s.store.get(o)
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], name)
                if m is None or m[1] != 'method' or 'setter' not in m[2]:
                    # property defined in a class with a setter under the same name
                    pass
                for c in self.mro(r.a[0]):
                    ms = self.cls_info(c)['methods'].get(name)
                    if ms and 'setter' in ms:
                        fv = self.method_func(s, c, ms['setter'])
                        return [s2 for s2, _ in self.call(s, fr, n, mk('bound', fv, o), [v], {})]
            if r is not None and r.op == 'oconn' and name == 'isolation_level':
                s.store[(o, '#isolation')] = v
            s.store[(o, name)] = v
            if self.watch_attr(s, o, name):
                self.event(s, fr, n, 'setattr', obj=o, name=name, value=self.frz(s, v))
            return [s]
        if o.op in ('cls', 'mod'):
            self.event(s, fr, n, 'globalwrite', name='%s.%s' % (o.a[0], name))
            return [s]
        if o is NONE:
            self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
            return []
        self.event(s, fr, n, 'setattr', obj=o, name=name, value=self.frz(s, v))
        s.store[(o, name)] = v
        return [s]

    def watch_attr(self, s, o, name):
        return False

    def setitem(self, s, fr, n, o, k, v):
        if o.op == 'ref':
            r = s.store.get(o)
            if r is not None and r.op == 'odict' and not self.hashable(s, fr, n, k):
                return []
        if o.op == 'ref':
            r = s.store.get(o)
            if r is not None and r.op == 'odict':
                s.store[o] = mk('odict', dict_put(r.a[0], k, v), r.a[1])
                if self.watch_attr(s, o, '[]'):
                    self.event(s, fr, n, 'setitem', obj=o, key=self.frz(s, k), value=self.frz(s, v))
                return [s]
            if r is not None and r.op == 'olist':
                sg = r.a[0]
                if is_int(k) and known_len(sg):
                    i = cv(k)
                    if -len(sg) <= i < len(sg):
                        l = list(sg)
                        l[i] = one(v)
                        s.store[o] = mk('olist', tuple(l))
                        return [s]
                    self.raise_(s, mk('exc', 'IndexError', ()), fr, n)
                    return []
                if is_int(k) and cv(k) >= 0 and len(sg) > cv(k) and all(g.op == 'one' for g in sg[:cv(k) + 1]):
                    l = list(sg)
                    l[cv(k)] = one(v)
                    s.store[o] = mk('olist', tuple(l))
                    return [s]
                s.store[o] = mk('olist', (spread(mk('upd', self.frz(s, o), self.frz(s, k), self.frz(s, v))),))
                return [s]
            if r is not None and r.op == 'oset':
                self.diag(fr, n, 'type', 'a set does not support item assignment')
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return []
        if o.op in ('tuple', 'str') or is_c(o):
            if o.op != 'tuple' or True:
                self.diag(fr, n, 'type', '%s does not support item assignment' % (kind_of(o) or o.op))
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return []
        self.mutate(s, fr, n, o, '[]=', (k, v))
        return [s]

    def mutate(self, s, fr, n, o, how, args):
        self.event(s, fr, n, 'mutate', obj=self.frz(s, o), how=how, args=tuple(self.frz(s, a) for a in args if isinstance(a, T)))

    def s_AugAssign(self, n, fr, s):
        op = type(n.op).__name__
        out = []
        t = n.target
        load = None
        if isinstance(t, ast.Name):
            load = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            load = ast.Attribute(t.value, t.attr, ast.Load())
        elif isinstance(t, ast.Subscript):
            load = ast.Subscript(t.value, t.slice, ast.Load())
        key = ('aug', id(n))
        cache = self.__dict__.setdefault('_aug', {})
        if key in cache:
            load = cache[key]
        else:
            ast.copy_location(load, t)
            for x in ast.walk(load):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, t)
            cache[key] = load
        for s2, a in self.ev(load, fr, s):
            for s3, b in self.ev(n.value, fr, s2):
                r = s3.store.get(a) if a.op == 'ref' else None
                if r is not None and r.op == 'olist' and op == 'Add':
                    # in-place extension keeps the identity of the list
                    for s4, sg in self.iter_to_segs(s3, fr, n, b):
                        r = s4.store[a]
                        s4.store[a] = mk('olist', r.a[0] + tuple(sg))
                        out += [(x, 'n', None) for x in self.assign(s4, fr, t, a)]
                    continue
                if r is not None and r.op == 'oset' and op in ('BitOr',):
                    sg = s3.store[b].a[0] if self.seqkind(s3, b) == 'set' else self.as_segs(s3, b)
                    s3.store[a] = mk('oset', r.a[0] + tuple(sg))
                    out += [(x, 'n', None) for x in self.assign(s3, fr, t, a)]
                    continue
                if a.op in ('param', 'attr', 'item', 'get') and op == 'Add' and self.seqkind(s3, b) == 'list':
                    self.mutate(s3, fr, n, a, '+=', (b,))
                for s4, v in self.binop(s3, fr, n, op, a, b):
                    out += [(x, 'n', None) for x in self.assign(s4, fr, t, v)]
        return out

    def s_Delete(self, n, fr, s):
        sts = [s]
        for t in n.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    x.store.pop((fr.addr, t.id), None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        for s2, (o, lo, hi) in self.evs([t.value, t.slice.lower or ast.Constant(None), t.slice.upper or ast.Constant(None)], fr, x):
                            r = s2.store.get(o) if o.op == 'ref' else None
                            if r is not None and r.op == 'olist' and lo is NONE and hi is NONE:
                                s2.store[o] = mk('olist', ())
                            elif r is not None and r.op == 'olist' and hi is not NONE and lo is NONE:
                                v = self.getslice(s2, fr, t, o, hi, NONE, NONE)
                                s2.store[o] = mk('olist', self.as_segs(s2, v))
                            elif r is not None and r.op == 'olist' and lo is not NONE and hi is NONE:
                                v = self.getslice(s2, fr, t, o, NONE, lo, NONE)
                                s2.store[o] = mk('olist', self.as_segs(s2, v))
                            else:
                                self.mutate(s2, fr, t, o, 'del', (lo, hi))
                            nxt.append(s2)
                        continue
                    for s2, (o, k) in self.evs([t.value, t.slice], fr, x):
                        r = s2.store.get(o) if o.op == 'ref' else None
                        if r is not None and r.op == 'odict' and any(kk is k for kk, _ in r.a[0]):
                            s2.store[o] = mk('odict', tuple((a, b) for a, b in r.a[0] if a is not k), r.a[1])
                        elif r is not None and r.op == 'odict':
                            s2.store[o] = mk('odict', (), mk('del', self.frz(s2, o), self.frz(s2, k)))
                        elif r is not None and r.op == 'olist':
                            sg = r.a[0]
                            if is_int(k) and known_len(sg) and -len(sg) <= cv(k) < len(sg):
                                l = list(sg)
                                del l[cv(k)]
                                s2.store[o] = mk('olist', tuple(l))
                            elif is_int(k) and cv(k) == 0:
                                v = self.getslice(s2, fr, t, o, C(1), NONE, NONE)
                                s2.store[o] = mk('olist', self.as_segs(s2, v))
                            else:
                                s2.store[o] = mk('olist', (spread(mk('del', self.frz(s2, o), self.frz(s2, k))),))
                        else:
                            self.mutate(s2, fr, t, o, 'del', (k,))
                        nxt.append(s2)
                else:
                    nxt.append(x)
            sts = nxt
        return [(x, 'n', None) for x in sts]

    # -------------------------------------------------------------- try / with
    def s_Try(self, n, fr, s):
        self.sinks.append([])
        try:
            outs = self.block(n.body, fr, s)
        finally:
            caught = self.sinks.pop()
        res = []
        if n.orelse:
            o2 = []
            for st, k, v in outs:
                if k == 'n':
                    o2 += self.block(n.orelse, fr, st)
                else:
                    o2.append((st, k, v))
            outs = o2
        pending = []
        self.sinks.append([])
        try:
            for st, exc in self.merge_raises(caught):
                live = st
                for h in n.handlers:
                    if live is None:
                        break
                    m = self.matches(live, fr, exc, h.type)
                    if m is False:
                        continue
                    hs = live.copy() if m is None else live
                    if m is True:
                        live = None
                    old = hs.store.get('#exc')
                    hs.store['#exc'] = exc
                    if h.name:
                        hs.store[(fr.addr, h.name)] = mk('exc', *exc.a) if exc.op == 'exc' else exc
                    for s2, k, v in self.block(h.body, fr, hs):
                        if old is None:
                            s2.store.pop('#exc', None)
                        else:
                            s2.store['#exc'] = old
                        outs.append((s2, k, v))
                if live is not None:
                    pending.append((live, exc))
        finally:
            raised2 = self.sinks.pop()
        pending += raised2
        if n.finalbody:
            o2 = []
            for st, k, v in outs:
                for s2, k2, v2 in self.block(n.finalbody, fr, st):
                    o2.append((s2, k, v) if k2 == 'n' else (s2, k2, v2))
            outs = o2
            for st, exc in self.merge_raises(pending):
                for s2, k2, v2 in self.block(n.finalbody, fr, st):
                    if k2 == 'n':
                        self.raise_(s2, exc, fr, n)
                    else:
                        outs.append((s2, k2, v2))
        else:
            for st, exc in pending:
                self.raise_(st, exc, fr, n)
        return outs

    s_TryStar = s_Try

    def merge_raises(self, lst):
        by = {}
        for st, exc in lst:
            by.setdefault(exc, []).append(st)
        out = []
        for exc, sts in by.items():
            for st in self.merge(sts):
                out.append((st, exc))
        return out

    def matches(self, s, fr, exc, typ):
        """does the handler catch the exception: True, False or None (maybe)"""
        if typ is None:
            return True
        name = exc.a[0] if exc.op == 'exc' else 'any'
        self.sinks.append([])
        try:
            tv = [v for _s, v in self.ev(typ, fr, s.copy())]
        finally:
            self.sinks.pop()
        names = []
        for v in tv:
            vs = seg_vals(v.a[0]) if v.op == 'tuple' and known_len(v.a[0]) else [v]
            for x in vs:
                names.append(x.a[0] if x.op in ('cls', 'ext') else '?')
        res = False
        for h in names:
            if h == 'BaseException' or (h == 'Exception' and name not in ('GeneratorExit', 'KeyboardInterrupt', 'SystemExit')):
                return True
            r = exc_sub(name, h)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def s_With(self, n, fr, s):
        return self.with_items(n, n.items, fr, s)

    def with_items(self, n, items, fr, s):
        if not items:
            return self.block(n.body, fr, s)
        it = items[0]
        outs = []
        for s2, v in self.ev(it.context_expr, fr, s):
            outs += self.with_one(n, it, items[1:], fr, s2, v)
        return outs

    def with_one(self, n, it, rest, fr, s, v):
        def run(st, bound):
            """body with the exceptions collected: (outcomes, raises)"""
            sts = [st]
            if it.optional_vars is not None:
                sts = self.assign(st, fr, it.optional_vars, bound)
            self.sinks.append([])
            res = []
            try:
                for x in sts:
                    res += self.with_items(n, rest, fr, x)
            finally:
                rs = self.sinks.pop()
            return res, rs
        # generator based context manager
        if v.op == 'cmgen':
            fv, args, kw = v.a
            outs = []

            def handler(st, yv):
                res, rs = run(st, yv)
                cont = []
                for s2, k, val in res:
                    s2.store['#with', fr.ctx, self.site(n)] = mk('wr', k, val if val is not None else NONE)
                    cont.append(s2)
                for s2, exc in rs:
                    self.raise_(s2, exc, fr, n)
                return cont
            for s2, rv in self.call_gen(s, fr, n, fv, list(args), dict(kw), handler):
                w = s2.store.pop(('#with', fr.ctx, self.site(n)), None)
                if w is None or w.a[0] == 'n':
                    outs.append((s2, 'n', None))
                else:
                    outs.append((s2, w.a[0], w.a[1]))
            return outs
        r = s.store.get(v) if v.op == 'ref' else None
        if r is not None and r.op == 'oinst' and ':' in r.a[0] and self.find_method(r.a[0], '__enter__'):
            outs = []
            me = self.find_method(r.a[0], '__enter__')
            mx = self.find_method(r.a[0], '__exit__')
            for s2, bv in self.call(s, fr, n, mk('bound', self.method_func(s, me[0], me[2]['method']), v), [], {}):
                res, rs = run(s2, bv)
                for s3, k, val in res:
                    for s4, _ in self.call(s3, fr, n, mk('bound', self.method_func(s3, mx[0], mx[2]['method']), v), [NONE, NONE, NONE], {}):
                        outs.append((s4, k, val))
                for s3, exc in rs:
                    for s4, xv in self.call(s3, fr, n, mk('bound', self.method_func(s3, mx[0], mx[2]['method']), v),
                                            [exc, exc, NONE], {}):
                        t, f = self.branchv(s4, xv)
                        if t is not None:
                            outs.append((t, 'n', None))
                        if f is not None:
                            self.raise_(f, exc, fr, n)
            return outs
        if v.op == 'closing':
            res, rs = run(s, v.a[0])
            outs = []
            for s2, k, val in res:
                for s3, _ in self.method(s2, fr, n, v.a[0], 'close', [], {}):
                    outs.append((s3, k, val))
            for s2, exc in rs:
                for s3, _ in self.method(s2, fr, n, v.a[0], 'close', [], {}):
                    self.raise_(s3, exc, fr, n)
            return outs
        if v.op == 'suppress':
            res, rs = run(s, NONE)
            return res + [(s2, 'n', None) for s2, exc in rs]
        if r is not None and r.op == 'oconn':
            res, rs = run(s, v)
            outs = []
            for s2, k, val in res:
                for s3, _ in self.method(s2, fr, n, v, 'commit', [], {}):
                    outs.append((s3, k, val))
            for s2, exc in rs:
                for s3, _ in self.method(s2, fr, n, v, 'rollback', [], {}):
                    self.raise_(s3, exc, fr, n)
            return outs
        if r is not None and r.op == 'ocur':
            res, rs = run(s, v)
            outs = []
            for s2, k, val in res:
                for s3, _ in self.method(s2, fr, n, v, 'close', [], {}):
                    outs.append((s3, k, val))
            for s2, exc in rs:
                for s3, _ in self.method(s2, fr, n, v, 'close', [], {}):
                    self.raise_(s3, exc, fr, n)
            return outs
        res, rs = run(s, v)
        for s2, exc in rs:
            self.raise_(s2, exc, fr, n)
        return res

    # -------------------------------------------------------------- loops
    def s_For(self, n, fr, s):
        outs = []
        for s2, v in self.ev(n.iter, fr, s):
            def body(st, x):
                res = []
                for s3 in self.assign(st, fr, n.target, x):
                    res += self.block(n.body, fr, s3)
                return res
            for s3, k, val in self.iterate(s2, fr, n, v, body):
                if k == 'n' and n.orelse:
                    outs += self.block(n.orelse, fr, s3)
                elif k == 'b':
                    outs.append((s3, 'n', None))
                else:
                    outs.append((s3, k, val))
        ns = self.merge([o[0] for o in outs if o[1] == 'n'])
        return [(x, 'n', None) for x in ns] + [o for o in outs if o[1] != 'n']

    def s_While(self, n, fr, s):
        outs = []
        for s3, k, val in self.while_loop(n, fr, s):
            if k == 'n' and n.orelse:
                outs += self.block(n.orelse, fr, s3)
            elif k == 'b':
                outs.append((s3, 'n', None))
            else:
                outs.append((s3, k, val))
        ns = self.merge([o[0] for o in outs if o[1] == 'n'])
        return [(x, 'n', None) for x in ns] + [o for o in outs if o[1] != 'n']

    def s_Match(self, n, fr, s):
        self.imprecise.append('match statement')
        return [(s, 'n', None)]


CANON = {'np': 'numpy'}


def dict_put(ents, k, v):
    if any(kk is k for kk, _ in ents):
        return tuple((kk, v if kk is k else vv) for kk, vv in ents)
    return ents + ((k, v),)


def seg_slice(sg, a, b):
    """slice of partially known segments; None if it cannot be decided"""
    sg = list(sg)
    if a < 0:
        # last -a elements
        tail = []
        i = len(sg) - 1
        need = -a
        while need and i >= 0 and sg[i].op == 'one':
            tail.insert(0, sg[i])
            i -= 1
            need -= 1
        if need or b is not None:
            return None
        return tail
    while a > 0:
        if not sg:
            break
        if sg[0].op != 'one':
            if len(sg) == 1 and sg[0].op == 'spread' and b is None:
                return [spread(mk('slice', sg[0].a[0], C(a), NONE, NONE))]
            return None
        sg.pop(0)
        a -= 1
    if b is None:
        return sg
    if b < 0:
        k = -b
        while k > 0:
            if not sg:
                break
            if sg[-1].op != 'one':
                return None
            sg.pop()
            k -= 1
        return sg
    return None


EXC_TREE = {}


def exc_sub(name, h):
    """is exception class `name` caught by handler class `h`"""
    import builtins
    if h == '?':
        return None
    if name == 'any':
        return None
    if name == 'dberror':
        if any(x in h for x in ('sqlite3', 'MySQLdb', 'mysql', '_mysql')):
            return None if h.rsplit('.', 1)[-1] not in ('Error', 'DatabaseError', 'MySQLError') else True
        return False
    a, b = getattr(builtins, name, None), getattr(builtins, h, None)
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(b, type):
        return None if ':' in name else False
    return name == h
