"""Models of builtins, container methods, database drivers and libraries."""
import ast

from .terms import (T, mk, C, NONE, TRUE, FALSE, is_c, ground, cv, is_int, mkstr, unstr, one, tup, mktuple, many, spread, pyval,
                    known_len, seg_vals, item, add, sub, mul, subst, length, walk, mentions, has, str_parts)
from .interp import Fi, Frame, S, Limit, EXC_NAMES, TYPE_NAMES, kind_of, inst_ok, STR_METHODS_STR
from . import chars
from .calls import Calls
from .exec import dict_put, seg_slice

STR_PURE = set(dir(str)) - {'format_map'}
READ_METHODS = STR_PURE | {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'union', 'intersection', 'difference',
                           'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'group', 'groups', 'search',
                           'match', 'fullmatch', 'sub', 'findall', 'is_integer', 'item', 'tolist', 'start', 'end', 'span'}
MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'update', 'discard',
               'setdefault', 'popitem', 'appendleft', 'popleft', 'difference_update', 'intersection_update', '__setitem__'}


class Models(Calls):
    def newlist(self, s, fr, n, segs, kind='olist', tag='m'):
        return self.alloc(s, fr, n, mk(kind, tuple(segs)), tag)

    def segs1(self, s, v):
        return tuple(self.as_segs(s, v))

    # ============================================================== external functions
    def call_ext(self, s, fr, n, name, args, kwargs):
        m = getattr(self, 'x_' + name.replace('.', '_'), None)
        if m is not None and not any(a.op == 'starargs' for a in args):
            r = m(s, fr, n, args, kwargs)
            if r is not None:
                return r
        fz = tuple(self.frz(s, a) for a in args)
        kz = tuple(sorted((k, self.frz(s, v)) for k, v in kwargs.items()))
        from .calls import PURE_EXT
        if name in EXC_NAMES:
            return [(s, mk('exc', name, fz))]
        if name.startswith(PURE_EXT) or name in PURE_BUILTINS:
            if name.startswith('random.') or name in ('numpy.random',):
                return [(s, mk('rand', name, fr.ctx, self.site(n)))]
            if name.startswith('itertools.'):
                return self.itertools(s, fr, n, name, args, kwargs, fz)
            return [(s, mk('call', name, fz) if not kz else mk('call', name, fz, kz))]
        return self.opaque_call(s, fr, n, mk('ext', name), args, kwargs)

    # ---- driver primitives
    def x_mark(self, s, fr, n, args, kw):
        self.event(s, fr, n, 'mark', label=cv(args[0]), args=tuple(self.frz(s, a) for a in args[1:]), rawargs=tuple(args[1:]))
        return [(s, NONE)]

    def x_assume(self, s, fr, n, args, kw):
        t, f = self.branchv(s, args[0])
        return [(t, NONE)] if t is not None else []

    def x_faults(self, s, fr, n, args, kw):
        s.store['#faults'] = args[0]
        return [(s, NONE)]

    def x_unknown(self, s, fr, n, args, kw):
        return [(s, mk('param', cv(args[0]) if args else 'u%d' % self.site(n)))]

    def x_obj(self, s, fr, n, args, kw):
        """instance of a class with unknown fields: obj('mod:Class', label)"""
        ref = mk('ref', 'obj', cv(args[1]))
        s.store[ref] = mk('oinst', cv(args[0]))
        s.store[(ref, '#open')] = TRUE
        for k, v in kw.items():
            s.store[(ref, k)] = v
        return [(s, ref)]

    # ---- builtins
    def x_len(self, s, fr, n, args, kw):
        v = args[0]
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op == 'olist':
                return [(s, self.cv_len(s, mk('tuple', self.frz_segs(s, r.a[0], 0))))]
            if r is not None and r.op == 'oset':
                if not r.a[0]:
                    return [(s, C(0))]
                if all(g.op == 'one' and is_c(g.a[0]) for g in r.a[0]):
                    return [(s, C(len(set(r.a[0]))))]
                if len(r.a[0]) == 1 and r.a[0][0].op == 'one':
                    return [(s, C(1))]
                sg = r.a[0]
                if len(sg) == 1 and sg[0].op == 'spread' and sg[0].a[0].op in ('rows', 'uniq'):
                    return [(s, length(sg[0].a[0]))]
                return [(s, mk('len', self.frz(s, v)))]
            if r is not None and r.op == 'odict':
                if r.a[1] is None and all(is_c(k) or self.gr(s, k) for k, _ in r.a[0]):
                    return [(s, C(len(r.a[0])))]
                return [(s, mk('len', self.frz(s, v)))]
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], '__len__')
                if m:
                    return self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), v), [], {})
                if self.closed_class(r.a[0]):
                    self.diag(fr, n, 'type', '%s object has no len()' % r.a[0].split(':')[1])
                    self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                    return []
        if v.op == 'permutations':
            k = v.a[1]
            if k is NONE:
                return [(s, mk('call', 'math.factorial', (length(v.a[0]),)))]
        if v.op in ('gen', 'zip', 'enum', 'reversed', 'map', 'len', 'it', 'rowcount') or v is NONE or is_int(v) or is_c(v, float):
            self.diag(fr, n, 'type', '%s has no len()' % (kind_of(v) or v.op))
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        if v.op == 'str':
            if all(isinstance(p, str) for p in v.a[0]):
                return [(s, C(sum(len(p) for p in v.a[0])))]
            return [(s, mk('len', unstr(v)))]
        return [(s, self.cv_len(s, self.frz(s, v)))]

    def cv_len(self, s, v):
        return length(v)

    def x_range(self, s, fr, n, args, kw):
        if len(args) == 1:
            return [(s, mk('range', C(0), args[0], C(1)))]
        if len(args) == 2:
            return [(s, mk('range', args[0], args[1], C(1)))]
        return [(s, mk('range', *args[:3]))]

    def x_enumerate(self, s, fr, n, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        v = args[0]
        out = []
        for s2, v2 in self.materialise(s, fr, n, v):
            out.append((s2, mk('enum', self.shallow(s2, v2), start)))
        return out

    def materialise(self, s, fr, n, v):
        """turns generators and cursors into lists"""
        if v.op == 'gen' or (v.op == 'ref' and s.store.get(v) is not None and s.store[v].op in ('ocur', 'oset', 'ofile')):
            out = []
            for s2, sg in self.iter_to_segs(s, fr, n, v):
                out.append((s2, mktuple(sg)))
            return out
        return [(s, v)]

    def x_zip(self, s, fr, n, args, kw):
        outs = [(s, [])]
        for a in args:
            outs = [(s3, vs + [v]) for s2, vs in outs for s3, v in self.materialise(s2, fr, n, a)]
        return [(s2, mk('zip', *[self.shallow(s2, v) for v in vs])) for s2, vs in outs]

    def shallow(self, s, v):
        """the elements of a list as they are now, keeping which objects they are"""
        if v.op in ('ref', 'tuple'):
            sg = self.segs_of(s, v)
            if sg is not None and known_len(sg) and any(x.op in ('ref', 'tuple') for x in seg_vals(sg)):
                return mktuple(tuple(sg))
        return self.frz(s, v)

    def x_reversed(self, s, fr, n, args, kw):
        sg = self.segs_of(s, args[0])
        if sg is not None and known_len(sg):
            return [(s, mktuple(tuple(reversed(sg))))]
        return [(s, mk('reversed', self.frz(s, args[0])))]

    def x_sorted(self, s, fr, n, args, kw):
        out = []
        for s2, v in self.materialise(s, fr, n, args[0]):
            sg = self.segs_of(s2, v)
            if sg is not None and all(g.op == 'one' and is_c(g.a[0]) for g in sg) and not kw and not any(chars.has_sent(cv(x)) for x in seg_vals(sg) if is_c(x, str)):
                try:
                    vals = sorted((cv(x) for x in seg_vals(sg)))
                    out.append((s2, self.newlist(s2, fr, n, [one(C(x)) for x in vals])))
                    continue
                except TypeError:
                    pass
            if sg is not None and known_len(sg) and len(sg) < 2:
                out.append((s2, self.newlist(s2, fr, n, list(sg))))
                continue
            done = self.ordered(s2, fr, n, sg, kw)
            if done is not None:
                out += [(s3, self.newlist(s3, fr, n, l)) for s3, l in done]
                continue
            key = kw.get('key', NONE)
            out.append((s2, self.newlist(s2, fr, n, [spread(mk('sorted', self.frz(s2, v), key, kw.get('reverse', FALSE)))])))
        return out

    def ordered(self, s, fr, n, sg, kw, pick=None):
        """the elements of a short list in the order of their keys, for every outcome of computing these; None when the order is not known"""
        rev = kw.get('reverse', FALSE)
        key = kw.get('key', NONE)
        if sg is None or not known_len(sg) or len(sg) > (60 if key is NONE else 5000) or not is_c(rev) or set(kw) - {'key', 'reverse'}:
            return None
        outs = [(s.copy() if key is not NONE else s, [])]
        for x in seg_vals(sg):
            if key is NONE:
                outs = [(s2, ks + [x]) for s2, ks in outs]
            else:
                outs = [(s3, ks + [k]) for s2, ks in outs for s3, k in self.call(s2, fr, n, key, [x], {})]
            if len(outs) > 200:
                return None
        res = []
        for s2, ks in outs:
            try:
                vals = [pyval(self.frz(s2, k)) for k in ks]
                if chars.has_sent(repr(vals)):
                    return None
                at = list(range(len(vals)))
                at = sorted(at, key=lambda i: vals[i], reverse=bool(cv(rev))) if pick is None else [pick(at, key=lambda i: vals[i])]
            except (TypeError, ValueError):
                return None
            res.append((s2, [sg[i] for i in at]))
        return res

    def seq_where(self, s, fr, n, sg, name, args):
        """index and count of a known value in a list of known values"""
        if len(args) != 1 or not known_len(sg) or not self.gr(s, args[0]) or not all(self.gr(s, x) for x in seg_vals(sg)):
            return None
        hits = []
        for i, x in enumerate(seg_vals(sg)):
            c = self.eqc(s, x, args[0])
            if not isinstance(c, bool):
                return None
            if c:
                hits.append(i)
        if name == 'count':
            return [(s, C(len(hits)))]
        if hits:
            return [(s, C(hits[0]))]
        self.raise_(s, mk('exc', 'ValueError', ()), fr, n)
        return []

    def x_list(self, s, fr, n, args, kw):
        if not args:
            return [(s, self.newlist(s, fr, n, ()))]
        return [(s2, self.newlist(s2, fr, n, sg)) for s2, sg in self.iter_to_segs(s, fr, n, args[0])]

    def x_tuple(self, s, fr, n, args, kw):
        if not args:
            return [(s, tup())]
        return [(s2, mktuple(self.noid(sg))) for s2, sg in self.iter_to_segs(s, fr, n, args[0])]

    def noid(self, sg):
        return sg

    def x_set(self, s, fr, n, args, kw):
        if not args:
            return [(s, self.newlist(s, fr, n, (), 'oset'))]
        out = []
        for s2, sg in self.iter_to_segs(s, fr, n, args[0]):
            if len(sg) == 1 and sg[0].op == 'spread' and sg[0].a[0].op == 'uniq':
                sg = self.as_segs(s2, sg[0].a[0].a[0])
            out.append((s2, self.newlist(s2, fr, n, sg, 'oset')))
        return out

    x_frozenset = x_set

    def x_dict(self, s, fr, n, args, kw):
        ents = ()
        rest = None
        if args:
            v = args[0]
            r = s.store.get(v) if v.op == 'ref' else None
            if r is not None and r.op == 'odict':
                ents, rest = r.a
            else:
                sg = self.segs_of(s, v)
                if sg is not None and known_len(sg) and all(x.op == 'tuple' and len(x.a[0]) == 2 for x in seg_vals(sg)):
                    for x in seg_vals(sg):
                        a, b = seg_vals(x.a[0])
                        ents = dict_put(ents, a, b)
                else:
                    rest = self.frz(s, v)
        for k, v in kw.items():
            ents = dict_put(ents, C(k), v)
        return [(s, self.newdict(s, fr, n, ents, rest))]

    x_collections_OrderedDict = x_dict

    def newdict(self, s, fr, n, ents, rest):
        return self.alloc(s, fr, n, mk('odict', tuple(ents), rest), 'd')

    def x_collections_defaultdict(self, s, fr, n, args, kw):
        return [(s, self.unk(fr, n, 'defaultdict'))]

    def x_str(self, s, fr, n, args, kw):
        if not args:
            return [(s, C(''))]
        return self.tostr(s, fr, n, args[0])

    def x_repr(self, s, fr, n, args, kw):
        v = args[0]
        if is_c(v, str) and chars.has_sent(cv(v)):
            w = chars.every(repr, cv(v))
            return [(s, C(w[1]) if w and w[0] == 'v' else self.unk(fr, n, 'repr'))]
        if is_c(v):
            return [(s, C(repr(cv(v))))]
        return [(s, mk('call', 'repr', (self.frz(s, v),)))]

    def x_int(self, s, fr, n, args, kw):
        v = args[0] if args else C(0)
        if is_c(v) and v.a[0] in ('int', 'bool', 'float', 'str') and len(args) < 2:
            if is_c(v, str) and chars.has_sent(cv(v)):
                return self.convert(s, fr, n, int, v)
            try:
                return [(s, C(int(cv(v))))]
            except ValueError:
                self.raise_(s, mk('exc', 'ValueError', ()), fr, n)
                return []
        if kind_of(v) == 'int':
            return [(s, v)]
        return [(s, mk('call', 'int', tuple(self.frz(s, a) for a in args)))]

    def x_float(self, s, fr, n, args, kw):
        v = args[0] if args else C(0.0)
        if is_c(v) and v.a[0] in ('int', 'bool', 'float', 'str'):
            if is_c(v, str) and chars.has_sent(cv(v)):
                return self.convert(s, fr, n, float, v)
            try:
                return [(s, C(float(cv(v))))]
            except ValueError:
                self.raise_(s, mk('exc', 'ValueError', ()), fr, n)
                return []
        return [(s, mk('call', 'float', (self.frz(s, v),)))]

    def convert(self, s, fr, n, typ, v):
        out = []
        for r in sorted(chars.outcomes(typ, cv(v))):
            st = s.copy()
            if r[0] == 'x':
                self.raise_(st, mk('exc', r[1], ()), fr, n)
            else:
                out.append((st, mk('call', typ.__name__, (v,))))
        return out

    def x_bool(self, s, fr, n, args, kw):
        if not args:
            return [(s, FALSE)]
        return [(s, self.bval(s, self.truth(s, args[0])))]

    def x_isinstance(self, s, fr, n, args, kw):
        x, t = args[0], args[1]
        ts = []
        sg = self.segs_of(s, t)
        if sg is not None:
            if not known_len(sg):
                return [(s, self.unk(fr, n, 'isinstance'))]
            for y in seg_vals(sg):
                sg2 = self.segs_of(s, y)
                ts += seg_vals(sg2) if sg2 is not None and known_len(sg2) else [y]
        else:
            ts = [t]
        names = []
        for y in ts:
            nm = self.type_name(y)
            if nm is None:
                return [(s, self.unk(fr, n, 'isinstance'))]
            if ':' in nm:
                # all subclasses count
                pass
            names.append(nm)
        return [(s, self.bval(s, self.inst_cond(s, x, tuple(names))))]

    def x_type(self, s, fr, n, args, kw):
        x = args[0]
        if x.op == 'ref':
            r = s.store.get(x)
            if r is not None and r.op == 'oinst':
                return [(s, mk('cls', r.a[0]))]
            if r is not None and r.op in ('olist', 'oset', 'odict'):
                return [(s, mk('ext', {'olist': 'list', 'oset': 'set', 'odict': 'dict'}[r.op]))]
        if kind_of(x) in TYPE_NAMES:
            return [(s, mk('ext', kind_of(x)))]
        return [(s, mk('typeof', x))]

    def x_min(self, s, fr, n, args, kw):
        return self.minmax(s, fr, n, args, kw, 'min')

    def x_max(self, s, fr, n, args, kw):
        return self.minmax(s, fr, n, args, kw, 'max')

    def minmax(self, s, fr, n, args, kw, which):
        vals = args
        if len(args) == 1:
            sg = self.segs_of(s, args[0])
            vals = seg_vals(sg) if sg is not None and known_len(sg) else None
        if vals and all(is_int(v) for v in vals) and not kw:
            return [(s, C((min if which == 'min' else max)(cv(v) for v in vals)))]
        if vals and set(kw) == {'key'}:
            done = self.ordered(s, fr, n, [one(v) for v in vals], kw, min if which == 'min' else max)
            if done is not None:
                return [(s2, l[0].a[0]) for s2, l in done]
            return [(s, self.unk(fr, n, which))]
        if vals is not None and len(args) > 1 and not kw:
            vs = tuple(sorted((self.frz(s, v) for v in vals), key=lambda t: t.uid))
            return [(s, mk('call', which, vs))]
        return [(s, mk('call', which, tuple(self.frz(s, a) for a in args)))]

    def x_sum(self, s, fr, n, args, kw):
        out = []
        for s2, v in self.materialise(s, fr, n, args[0]):
            sg = self.segs_of(s2, v)
            start = args[1] if len(args) > 1 else C(0)
            if sg is not None and known_len(sg):
                if self.seqkind(s2, start) == 'list':
                    segs = self.segs_of(s2, start)
                    for x in seg_vals(sg):
                        segs = segs + self.segs1(s2, x)
                    out.append((s2, self.newlist(s2, fr, n, segs)))
                    continue
                acc = start
                for x in seg_vals(sg):
                    acc = add(acc, x)
                out.append((s2, acc))
            else:
                fz = self.frz(s2, v)
                if self.seqkind(s2, start) == 'list':
                    for s3, ref in self.x_itertools_chain_from_iterable(s2, fr, n, [v], {}):
                        out.append((s3, self.newlist(s3, fr, n, self.segs1(s3, start) + self.segs1(s3, ref))))
                else:
                    out.append((s2, mk('call', 'sum', (fz, self.frz(s2, start)))))
        return out

    def quant(self, s, fr, n, v, isall):
        def body(st, x):
            outs = []
            t, f = self.branchv(st, x)
            if t is not None:
                outs.append((t, 'n' if isall else 'r', TRUE))
            if f is not None:
                outs.append((f, 'r' if isall else 'n', FALSE))
            return outs
        out = []
        for s2, k, val in self.iterate(s, fr, n, v, body):
            out.append((s2, C(isall) if k == 'n' else C(not isall)))
        return out

    def x_all(self, s, fr, n, args, kw):
        return self.quant(s, fr, n, args[0], True)

    def x_any(self, s, fr, n, args, kw):
        return self.quant(s, fr, n, args[0], False)

    def x_map(self, s, fr, n, args, kw):
        if len(args) < 2:
            outs = [(s, self.unk(fr, n, 'map'))]
            return outs
        if len(args) > 2:
            outs = []
            for s2, z in self.x_zip(s, fr, n, list(args[1:]), {}):
                outs += self.map_over(s2, fr, n, args[0], z, len(args) - 1)
            return outs
        return self.map_over(s, fr, n, args[0], args[1], 0)

    def map_over(self, s, fr, n, f, coll, width):
        ref = self.newlist(s, fr, n, (), tag='map')

        def body(st, x):
            res = []
            for s2, v in self.call(st, fr, n, f, [item(x, C(j)) for j in range(width)] if width else [x], {}):
                s2.store[ref] = mk('olist', s2.store[ref].a[0] + (one(v),))
                res.append((s2, 'n', None))
            return res
        return [(s2, ref) for s2, k, _ in self.iterate(s, fr, n, coll, body)]

    def x_filter(self, s, fr, n, args, kw):
        ref = self.newlist(s, fr, n, (), tag='filter')

        def body(st, x):
            res = []
            if args[0] is NONE:
                rs = [(st, x)]
            else:
                rs = self.call(st, fr, n, args[0], [x], {})
            for s2, v in rs:
                t, f = self.branchv(s2, v)
                if f is not None:
                    res.append((f, 'n', None))
                if t is not None:
                    t.store[ref] = mk('olist', t.store[ref].a[0] + (one(x),))
                    res.append((t, 'n', None))
            return res
        return [(s2, ref) for s2, k, _ in self.iterate(s, fr, n, args[1], body)]

    def x_print(self, s, fr, n, args, kw):
        if self.opts.lines is not None:
            self.event(s, fr, n, 'call', func=mk('ext', 'print'), args=tuple(self.frz(s, x) for x in args),
                       kwargs=tuple(sorted((k, self.frz(s, v)) for k, v in kw.items())))
        return [(s, NONE)]

    def x_iter(self, s, fr, n, args, kw):
        v = args[0]
        if len(args) == 1 and not kw and not (v.op == 'ref' and s.store.get(v) is not None and s.store[v].op in ('ocur', 'ofile', 'oinst')) and v.op != 'gen':
            sg = self.segs_of(s, v)
            if sg is not None and known_len(sg):
                return [(s, self.alloc(s, fr, n, mk('ofile', tuple(seg_vals(sg)), 0)))]
        return [(s, v)]

    def x_next(self, s, fr, n, args, kw):
        v = args[0]
        if v.op == 'ref' and s.store.get(v) is not None and s.store[v].op == 'ocur':
            return self.fetchone(s, fr, n, v, args[1] if len(args) > 1 else None)
        if v.op == 'ref' and s.store.get(v) is not None and s.store[v].op == 'ofile':
            lines, pos = s.store[v].a
            if pos >= len(lines):
                if len(args) > 1:
                    return [(s, args[1])]
                self.raise_(s, mk('exc', 'StopIteration', ()), fr, n)
                return []
            s.store[v] = mk('ofile', lines, pos + 1)
            return [(s, lines[pos])]
        sg = self.segs_of(s, v)
        if v.op in ('permutations', 'zip', 'enum'):
            self.imprecise.append('iterator %s' % v.op)
        if sg is not None and sg and sg[0].op == 'one':
            if v.op == 'ref' and s.store[v].op == 'olist':
                # the values of a generator expression
                s.store[v] = mk('olist', tuple(sg[1:]))
            return [(s, sg[0].a[0])]
        if sg is not None and not sg:
            if len(args) > 1:
                return [(s, args[1])]
            self.raise_(s, mk('exc', 'StopIteration', ()), fr, n)
            return []
        if v.op == 'ref' and s.store.get(v) is not None and s.store[v].op in ('olist', 'oset') and len(args) > 1:
            out = []
            sg = self.segs_of(s, v)
            t, f = self.branchv(s, v)
            if t is not None:
                one_each = sg is not None and len(sg) == 1 and sg[0].op == 'many' and len(sg[0].a[2]) == 1 and not sg[0].a[2][0][0] \
                    and len(sg[0].a[2][0][1]) == 1 and sg[0].a[2][0][1][0].op == 'one'
                if one_each:
                    L = sg[0].a[0]
                    out.append((t, subst(sg[0].a[2][0][1][0].a[0], {mk('it', L): C(0)})))
                else:
                    out.append((t, mk('first', self.frz(t, v))))
            if f is not None:
                out.append((f, args[1]))
            return out
        if v.op == 'gen':
            return [(s, self.unk(fr, n, 'next'))]
        return [(s, mk('next', self.frz(s, v), fr.ctx, self.site(n)))]

    def x_getattr(self, s, fr, n, args, kw):
        if is_c(args[1], str):
            if len(args) > 2:
                self.sinks.append([])
                try:
                    self.dry += 1
                    r = self.getattr_(s.copy(), fr, n, args[0], cv(args[1]))
                    ok = bool(r)
                finally:
                    self.dry -= 1
                    self.sinks.pop()
                if not ok:
                    return [(s, args[2])]
            return self.getattr_(s, fr, n, args[0], cv(args[1]))
        return [(s, mk('attrdyn', self.frz(s, args[0]), self.frz(s, args[1])))]

    def x_setattr(self, s, fr, n, args, kw):
        if is_c(args[1], str):
            return [(s2, NONE) for s2 in self.setattr_(s, fr, n, args[0], cv(args[1]), args[2])]
        self.mutate(s, fr, n, args[0], 'setattr', tuple(args[1:]))
        return [(s, NONE)]

    def x_hasattr(self, s, fr, n, args, kw):
        obj, nm = args[0], args[1]
        if is_c(nm, str):
            name = self.mangle(fr, cv(nm))
            r = s.store.get(obj) if obj.op == 'ref' else None
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                if (obj, name) in s.store or self.find_method(r.a[0], name):
                    return [(s, TRUE)]
                if self.closed_class(r.a[0]) and (obj, '#open') not in s.store and not name.startswith('__'):
                    return [(s, FALSE)]
            if obj.op == 'cls' and ':' in obj.a[0]:
                if self.find_method(obj.a[0], name):
                    return [(s, TRUE)]
                if self.closed_class(obj.a[0]) and not name.startswith('__'):
                    return [(s, FALSE)]
        return [(s, mk('b', mk('hasattr', self.frz(s, args[0]), args[1]), True))]

    def x_callable(self, s, fr, n, args, kw):
        if args[0].op in ('func', 'bound', 'cls', 'partial', 'meth', 'decorated'):
            return [(s, TRUE)]
        return [(s, mk('b', mk('callable', args[0]), True))]

    def x_ord(self, s, fr, n, args, kw):
        v = args[0]
        if is_c(v, str) and len(cv(v)) == 1 and not chars.has_sent(cv(v)):
            return [(s, C(ord(cv(v))))]
        return [(s, mk('ord', unstr(v)))]

    def x_dict_fromkeys(self, s, fr, n, args, kw):
        """keys of known identity: the dictionary itself"""
        sg = self.segs_of(s, args[0])
        if sg is None or kw or len(args) > 2:
            return None
        sg = self.frz_segs(s, sg, 0)
        if not all(x.op == 'one' for x in sg):
            return None
        keys = []
        for x in sg:
            k = x.a[0]
            new = True
            for o in keys:
                r = self.eqc(s, k, o)
                if r is True:
                    new = False
                elif r is not False:
                    return None
            if new:
                keys.append(k)
        v = args[1] if len(args) > 1 else NONE
        return [(s, self.alloc(s, fr, n, mk('odict', tuple((k, v) for k in keys), None), 'fromkeys'))]

    def x_str_maketrans(self, s, fr, n, args, kw):
        args = [self.frz(s, a) for a in args]
        if all(is_c(a, str) for a in args) and len(args) in (2, 3) or len(args) == 1 and table_of(args[0]) is not None:
            return [(s, mk('call', 'str.maketrans', tuple(args)))]
        return None

    def x_chr(self, s, fr, n, args, kw):
        v = args[0]
        if is_int(v):
            return [(s, C(chr(cv(v))))]
        return [(s, mk('call', 'chr', (v,)))]

    def x_abs(self, s, fr, n, args, kw):
        if is_int(args[0]):
            return [(s, C(abs(cv(args[0]))))]
        return [(s, mk('call', 'abs', (args[0],)))]

    def x_open(self, s, fr, n, args, kw):
        fz = tuple(self.frz(s, x) for x in args)
        self.event(s, fr, n, 'fopen', args=fz, kwargs=tuple(sorted((k, self.frz(s, v)) for k, v in kw.items())))
        if self.opts.lines is not None:
            mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
            if is_c(mode, str) and cv(mode) in ('r', 'rt', 'U', 'rU'):
                return [(s, self.alloc(s, fr, n, mk('ofile', tuple(C(l) for l in self.opts.lines), 0)))]
        return [(s, mk('file', fz[0] if fz else NONE))]

    def x_io_open(self, s, fr, n, args, kw):
        return self.x_open(s, fr, n, args, kw)

    def x_codecs_open(self, s, fr, n, args, kw):
        return self.x_open(s, fr, n, args, kw)

    def m_ofile(self, s, fr, n, ref, r, name, args, kw):
        lines, pos = r.a
        if args or kw:
            return None
        if name == 'close':
            return [(s, NONE)]
        if name in ('__iter__', '__enter__'):
            return [(s, ref)]
        if name == 'readline' or name == '__next__':
            if pos < len(lines):
                s.store[ref] = mk('ofile', lines, pos + 1)
                return [(s, lines[pos])]
            if name == 'readline':
                return [(s, C(''))]
            self.raise_(s, mk('exc', 'StopIteration', ()), fr, n)
            return []
        if name in ('readlines', 'read'):
            s.store[ref] = mk('ofile', lines, len(lines))
            if name == 'read':
                return [(s, C(''.join(cv(l) for l in lines[pos:])))]
            return [(s, self.newlist(s, fr, n, tuple(one(l) for l in lines[pos:])))]
        return None

    def x_object___init__(self, s, fr, n, args, kw):
        return [(s, NONE)]

    def x_object(self, s, fr, n, args, kw):
        return [(s, self.unk(fr, n, 'object'))]

    def x_super(self, s, fr, n, args, kw):
        return [(s, self.unk(fr, n, 'super'))]

    def x_round(self, s, fr, n, args, kw):
        return [(s, mk('call', 'round', tuple(args)))]

    def x_slice(self, s, fr, n, args, kw):
        return None

    def x_format(self, s, fr, n, args, kw):
        return self.tostr(s, fr, n, args[0])

    def x_math_factorial(self, s, fr, n, args, kw):
        v = args[0]
        if is_int(v) and 0 <= cv(v) < 20:
            import math
            return [(s, C(math.factorial(cv(v))))]
        return [(s, mk('call', 'math.factorial', (v,)))]

    def x_functools_partial(self, s, fr, n, args, kw):
        return [(s, mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]

    def x_functools_reduce(self, s, fr, n, args, kw):
        key = ('#red', fr.ctx, self.site(n))
        f, it = args[0], args[1]
        sg = self.segs_of(s, it)
        if len(args) < 3:
            if sg is None or not sg or sg[0].op != 'one':
                return [(s, mk('call', 'functools.reduce', tuple(self.frz(s, a) for a in args)))]
            init = sg[0].a[0]
            it = mktuple(sg[1:])
        else:
            init = args[2]
        addr = mk('frame', self.subctx(fr.ctx, ('red', self.site(n))), 'red')
        s.store[(addr, 'acc')] = init

        def body(st, x):
            res = []
            for s2, v in self.call(st, fr, n, f, [st.store[(addr, 'acc')], x], {}):
                s2.store[(addr, 'acc')] = v
                res.append((s2, 'n', None))
            return res
        return [(s2, s2.store[(addr, 'acc')]) for s2, k, _ in self.iterate(s, fr, n, it, body)]

    def x_contextlib_closing(self, s, fr, n, args, kw):
        return [(s, mk('closing', args[0]))]

    def x_contextlib_suppress(self, s, fr, n, args, kw):
        return [(s, mk('suppress', tuple(args)))]

    def x_copy_copy(self, s, fr, n, args, kw):
        v = args[0]
        r = s.store.get(v) if v.op == 'ref' else None
        if r is not None and r.op in ('olist', 'oset', 'odict'):
            return [(s, self.alloc(s, fr, n, r, 'copy'))]
        return [(s, mk('call', 'copy.copy', (self.frz(s, v),)))]

    def x_itertools_permutations(self, s, fr, n, args, kw):
        v = mk('permutations', self.frz(s, args[0]), args[1] if len(args) > 1 else NONE)
        sg = self.segs_of(s, v)
        if sg is not None and known_len(sg) and len(sg) <= 5200:
            return [(s, self.alloc(s, fr, n, mk('ofile', tuple(seg_vals(sg)), 0)))]
        return [(s, v)]

    def x_itertools_chain(self, s, fr, n, args, kw):
        segs = ()
        cur = s
        for a in args:
            segs = segs + self.segs1(cur, a)
        return [(cur, mktuple(segs))]

    def x_itertools_chain_from_iterable(self, s, fr, n, args, kw):
        ref = self.newlist(s, fr, n, (), tag='chain')

        def body(st, x):
            def inner(s2, y):
                s2.store[ref] = mk('olist', s2.store[ref].a[0] + (one(y),))
                return [(s2, 'n', None)]
            return self.iterate(st, fr, n, x, inner, key='in')
        return [(s2, ref) for s2, k, _ in self.iterate(s, fr, n, args[0], body)]

    def x_itertools_count(self, s, fr, n, args, kw):
        return [(s, mk('range', args[0] if args else C(0), mk('inf'), C(1)))]

    def x_itertools_islice(self, s, fr, n, args, kw):
        sg = self.segs_of(s, args[0]) if args else None
        if sg is not None and known_len(sg) and not (args[0].op == 'ref' and s.store[args[0]].op == 'ofile'):
            args = [mktuple(tuple(sg))] + list(args[1:])
        elif args and args[0].op == 'ref' and s.store.get(args[0]) is not None and s.store[args[0]].op == 'ofile' and len(args) == 2 and is_int(args[1]):
            vals, pos = s.store[args[0]].a
            s.store[args[0]] = mk('ofile', vals, min(len(vals), pos + cv(args[1])))
            return [(s, tup(*vals[pos:pos + cv(args[1])]))]
        if len(args) == 2:
            return [(s, self.getslice(s, fr, n, args[0], NONE, args[1], NONE))]
        if len(args) >= 3:
            return [(s, self.getslice(s, fr, n, args[0], args[1], args[2], args[3] if len(args) > 3 else NONE))]

    def itertools(self, s, fr, n, name, args, kwargs, fz):
        return [(s, mk('call', name, fz))]

    def x_operator_itemgetter(self, s, fr, n, args, kw):
        return None

    def x_re_compile(self, s, fr, n, args, kw):
        return [(s, mk('call', 're.compile', tuple(self.frz(s, a) for a in args)))]

    def regex(self, s, fr, n, name, args, kw):
        """re.<name> on constants; None: not modelled"""
        import re
        if kw or len(args) < 2:
            return None
        p = args[0]
        if p.op == 'call' and p.a[0] == 're.compile' and len(p.a[1]) == 1:
            p = p.a[1][0]
        vals = [p] + list(args[1:])
        if not all(is_c(x) for x in vals):
            return None
        vals = [cv(x) for x in vals]

        def run(*vs):
            r = getattr(re, name)(*vs)
            if isinstance(r, re.Match):
                return ('match', r.group(0), r.groups(), r.span(), tuple(sorted((k, v) for k, v in r.groupdict().items())))
            return r
        # the pattern is never changed by the choice of characters
        w = chars.every(lambda *vs: run(vals[0], *vs), *vals[1:])
        if w is None:
            return [(s, self.unk(fr, n, 're.' + name))]
        if w[0] == 'x':
            self.raise_(s, mk('exc', w[1], ()), fr, n)
            return []
        r = w[1]
        if r is None:
            return [(s, NONE)]
        if isinstance(r, tuple) and r and r[0] == 'match':
            return [(s, mk('rematch', C(r[1]), tuple(C(x) for x in r[2]), r[3], tuple((k, C(v)) for k, v in r[4])))]
        if isinstance(r, list):
            return [(s, self.newlist(s, fr, n, [one(tup(*[C(y) for y in x]) if isinstance(x, tuple) else C(x)) for x in r]))]
        if isinstance(r, (str, int, bool)):
            return [(s, C(r))]
        return None

    def x_re_match(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'match', args, kw)

    def x_re_fullmatch(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'fullmatch', args, kw)

    def x_re_search(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'search', args, kw)

    def x_re_sub(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'sub', args, kw)

    def x_re_split(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'split', args, kw)

    def x_re_findall(self, s, fr, n, args, kw):
        return self.regex(s, fr, n, 'findall', args, kw)

    def m_rematch(self, s, fr, n, obj, name, args, kw):
        g0, gs, span, gd = obj.a
        if name == 'groups' and not args:
            return [(s, tup(*gs))]
        if name in ('group', '__getitem__'):
            out = []
            for a in args or [C(0)]:
                if is_int(a) and 0 <= cv(a) <= len(gs):
                    out.append(g0 if cv(a) == 0 else gs[cv(a) - 1])
                elif is_c(a, str) and cv(a) in dict(gd):
                    out.append(dict(gd)[cv(a)])
                else:
                    self.raise_(s, mk('exc', 'IndexError', ()), fr, n)
                    return []
            return [(s, out[0] if len(out) == 1 else tup(*out))]
        if name in ('start', 'end', 'span') and not args:
            return [(s, C(span[0]) if name == 'start' else C(span[1]) if name == 'end' else tup(C(span[0]), C(span[1])))]
        return None

    # ============================================================== methods
    def method(self, s, fr, n, obj, name, args, kwargs):
        op = obj.op
        if obj in self.opts.objects:
            return self.opaque_call(s, fr, n, mk('m', obj, name), args, kwargs)
        if op == 'ref':
            r = s.store.get(obj)
            if r is not None:
                m = getattr(self, 'm_' + r.op, None)
                if m is not None:
                    v = m(s, fr, n, obj, r, name, args, kwargs)
                    if v is not None:
                        return v
                if r.op == 'oinst' and ':' in r.a[0]:
                    pass
        elif op == 'tuple' or op == 'uniq':
            if op == 'tuple' and name == 'count' or name == 'index':
                if op == 'tuple':
                    done = self.seq_where(s, fr, n, obj.a[0], name, args)
                    if done is not None:
                        return done
                return [(s, mk('mcall', self.frz(s, obj), name, tuple(self.frz(s, a) for a in args)))]
            if op == 'uniq' and name in ('union',):
                return self.m_oset(s, fr, n, obj, mk('oset', (spread(obj),)), name, args, kwargs)
        elif op == 'phi' and self.phikind(s, obj) == 'oset' and name in ('union', 'copy'):
            return self.m_oset(s, fr, n, obj, mk('oset', (spread(obj),)), name, args, kwargs)
        if self.strlike(obj) or (op not in ('ref',) and name in STR_METHODS_ONLY):
            v = self.str_method(s, fr, n, obj, name, args, kwargs)
            if v is not None:
                return v
        if op == 'rematch':
            v = self.m_rematch(s, fr, n, obj, name, args, kwargs)
            if v is not None:
                return v
        if op == 'call' and obj.a[0] == 're.compile' and name in ('search', 'match', 'fullmatch', 'sub', 'findall', 'split') and len(obj.a[1]) == 1:
            v = self.regex(s, fr, n, name, [obj.a[1][0]] + [self.frz(s, a) for a in args], kwargs)
            if v is not None:
                return v
        if op == 'call' and obj.a[0] == 're.compile' and name in ('search', 'match', 'fullmatch', 'sub', 'findall', 'split'):
            return [(s, mk('call', 're.' + name, obj.a[1] + tuple(self.frz(s, a) for a in args)))]
        if op == 'call' and name in ('group', 'groups', 'start', 'end', 'span'):
            return [(s, mk('mcall', obj, name, tuple(args)))]
        if op == 'ret' and self.obj_class(obj) is None and False:
            pass
        return self.unknown_method(s, fr, n, obj, name, args, kwargs)

    def phikind(self, s, phi):
        p = self.phi.get(phi)
        init = p[0] if p else None
        if init is None:
            k = phi.a[1]
            return None
        if init.op == 'ref':
            r = s.store.get(init)
            return r.op if r is not None else None
        return None

    def unknown_method(self, s, fr, n, obj, name, args, kwargs):
        fz = tuple(self.frz(s, a) for a in args)
        kz = tuple(sorted((k, self.frz(s, v)) for k, v in kwargs.items()))
        fo = self.frz(s, obj)
        pm = self.opts.__dict__.get('pure_method')
        if pm is not None and pm(obj, name):
            return [(s, mk('mcall', fo, name, fz))]
        if name in MUT_METHODS and op_may_be_container(obj):
            self.event(s, fr, n, 'mutate', obj=fo, how=name, args=fz)
            return [(s, mk('ret', mk('m', fo, name), fz, kz, fr.ctx, self.site(n)))]
        if name in READ_METHODS:
            return [(s, mk('mcall', fo, name, fz))]
        return self.opaque_call(s, fr, n, mk('m', obj, name), args, kwargs)

    def str_method(self, s, fr, n, obj, name, args, kwargs):
        if name == 'join' and len(args) == 1:
            out = []
            for s2, sg in self.iter_to_segs(s, fr, n, args[0]):
                sg = self.frz_segs(s2, sg, 0)
                for x in sg:
                    if x.op == 'one' and (kind_of(x.a[0]) in ('int', 'float', 'NoneType', 'tuple') or x.a[0].op in ('tuple', 'func', 'cls')):
                        self.diag(fr, n, 'type', 'join needs strings, got %s' % (kind_of(x.a[0]) or x.a[0].op))
                        self.raise_(s2, mk('exc', 'TypeError', ()), fr, n)
                        return out
                out.append((s2, self.join(obj, sg)))
            return out
        if name == 'translate' and len(args) == 1 and is_c(obj, str):
            t = self.frz(s, args[0])
            fn = None
            if t.op == 'call' and t.a[0] == 'str.maketrans' and all(is_c(a) for a in t.a[1]):
                def fn(o, *vs):
                    return o.translate(str.maketrans(*vs))
                vals = [cv(a) for a in t.a[1]]
            else:
                d = table_of(t.a[1][0] if t.op == 'call' and t.a[0] == 'str.maketrans' else t)
                if d is not None:
                    if t.op == 'call':
                        d = str.maketrans(d)

                    def fn(o):
                        return o.translate(d)
                    vals = []
            if fn is not None:
                w = chars.every(fn, cv(obj), *vals)
                if w is not None and w[0] == 'v':
                    return [(s, C(w[1]))]
                return [(s, self.unk(fr, n, name))]
        if is_c(obj, str) and all(is_c(a) or (a.op == 'tuple' and known_len(a.a[0]) and all(is_c(x) for x in seg_vals(a.a[0]))) for a in args) \
                and not kwargs and name in STR_PURE and name != 'format':
            vals = [cv(a) if is_c(a) else tuple(cv(x) for x in seg_vals(a.a[0])) for a in args]
            if chars.has_sent(cv(obj)) or any(chars.has_sent(v) for v in vals):
                w = chars.every(lambda o, *vs: getattr(o, name)(*vs), cv(obj), *vals)
                if w is None:
                    if name.startswith('is') or name in ('startswith', 'endswith'):
                        return [(s, mk('b', mk('chr', name, obj, args), True))]
                    return [(s, self.unk(fr, n, name))]
                if w[0] == 'x':
                    self.raise_(s, mk('exc', w[1], ()), fr, n)
                    return []
                r = w[1]
            else:
                try:
                    r = getattr(cv(obj), name)(*vals)
                except Exception as e:
                    self.raise_(s, mk('exc', type(e).__name__, ()), fr, n)
                    return []
            if isinstance(r, list):
                return [(s, self.newlist(s, fr, n, [one(C(x)) for x in r]))]
            if isinstance(r, tuple):
                return [(s, tup(*[C(x) for x in r]))]
            if isinstance(r, (str, int, bool)):
                return [(s, C(r))]
            return None
        if name == 'format' and self.strlike(obj):
            return self.strformat(s, fr, n, obj, args, kwargs)
        if name in ('startswith', 'endswith') and len(args) == 1:
            lits = None
            if is_c(args[0], str):
                lits = [cv(args[0])]
            elif args[0].op == 'tuple' and known_len(args[0].a[0]) and all(is_c(x, str) for x in seg_vals(args[0].a[0])):
                lits = [cv(x) for x in seg_vals(args[0].a[0])]
            if lits is not None:
                out = []
                cur = s
                for l in lits:
                    r = self.startswith(obj, l) if name == 'startswith' else (mk('endswith', unstr(obj), C(l)), True)
                    if len(lits) == 1:
                        return [(cur, self.bval(cur, r))]
                    t, f = self.branch(cur, r)
                    if t is not None:
                        out.append((t, TRUE))
                    cur = f
                    if cur is None:
                        break
                if cur is not None:
                    out.append((cur, FALSE))
                return out
        fo = unstr(self.frz(s, obj))
        fz = tuple(self.frz(s, a) for a in args)
        if name in ('split', 'rsplit', 'splitlines'):
            kz = tuple(sorted((k, self.frz(s, v)) for k, v in kwargs.items()))
            t = mk('mcall', fo, name, fz + ((mk('kw', kz),) if kz else ()))
            return [(s, self.newlist(s, fr, n, (spread(t),), tag='split'))]
        if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'islower', 'isupper', 'isdecimal', 'isnumeric', 'isidentifier',
                    'isprintable', 'istitle', 'isascii'):
            return [(s, mk('b', mk('chr', name, fo), True))]
        if name in STR_PURE:
            return [(s, mk('mcall', fo, name, fz))]
        return None

    def join(self, sep, sg):
        if known_len(sg):
            parts = []
            for i, x in enumerate(sg):
                if i:
                    parts.append(sep)
                parts.append(x.a[0])
            return mkstr(parts)
        return mkstr([mk('join', sep, tuple(sg))])

    def strformat(self, s, fr, n, obj, args, kwargs):
        import string as _s
        if not is_c(obj, str):
            return [(s, mk('mcall', unstr(obj), 'format', tuple(self.frz(s, a) for a in args)))]
        outs = [(s, [])]
        auto = 0
        try:
            fields = list(_s.Formatter().parse(cv(obj)))
        except ValueError:
            return None
        for lit, fld, spec, conv in fields:
            outs = [(st, acc + [lit]) for st, acc in outs]
            if fld is None:
                continue
            if fld == '':
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)] if int(fld) < len(args) else None
            else:
                v = kwargs.get(fld)
            if v is None or spec or conv not in (None, 's'):
                return [(s, mk('mcall', obj, 'format', tuple(self.frz(s, a) for a in args)))]
            nxt = []
            for st, acc in outs:
                for s2, sv in self.tostr(st, fr, n, v):
                    nxt.append((s2, acc + [sv]))
            outs = nxt
        return [(st, mkstr(acc)) for st, acc in outs]

    # ---- list
    def m_olist(self, s, fr, n, ref, r, name, args, kw):
        sg = r.a[0]

        def put(segs):
            s.store[ref] = mk('olist', tuple(segs))
        if self.watch_attr(s, ref, '()') and name in MUT_METHODS:
            self.event(s, fr, n, 'lmut', obj=ref, how=name, args=tuple(self.frz(s, a) for a in args))
        if name == 'append' and len(args) == 1:
            put(sg + (one(args[0]),))
            return [(s, NONE)]
        if name == 'extend' and len(args) == 1:
            out = []
            for s2, g in self.iter_to_segs(s, fr, n, args[0]):
                s2.store[ref] = mk('olist', s2.store[ref].a[0] + tuple(g))
                out.append((s2, NONE))
            return out
        if name == 'insert' and len(args) == 2:
            if is_int(args[0]) and cv(args[0]) == 0:
                put((one(args[1]),) + sg)
            elif is_int(args[0]) and known_len(sg):
                l = list(sg)
                l.insert(cv(args[0]), one(args[1]))
                put(l)
            else:
                put((spread(mk('insert', self.frz(s, ref), args[0], args[1])),))
            return [(s, NONE)]
        if name == 'pop':
            k = args[0] if args else C(-1)
            if known_len(sg) and is_int(k):
                i = cv(k)
                if not -len(sg) <= i < len(sg):
                    self.raise_(s, mk('exc', 'IndexError', ()), fr, n)
                    return []
                l = list(sg)
                x = l.pop(i)
                put(l)
                return [(s, x.a[0])]
            x = self.getidx(s, fr, n, ref, k)
            if is_int(k) and cv(k) == 0:
                rest = seg_slice(sg, 1, None)
                if rest is None:
                    rest = (spread(mk('slice', mk('tuple', self.frz_segs(s, sg, 0)), C(1), NONE, NONE)),)
                    if sg and len(sg) == 1 and sg[0].op == 'spread' and sg[0].a[0].op == 'suffix':
                        q = sg[0].a[0]
                        rest = (spread(mk('suffix', q.a[0], add(q.a[1], C(1)))),)
                put(rest)
            elif is_int(k) and cv(k) == -1:
                rest = seg_slice(sg, 0, -1)
                put(rest if rest is not None else (spread(mk('slice', mk('tuple', self.frz_segs(s, sg, 0)), NONE, C(-1), NONE)),))
            else:
                put((spread(mk('del', self.frz(s, ref), k)),))
            return [(s, x)]
        if name == 'remove':
            fz = self.frz(s, ref)
            if all(g.op == 'one' for g in sg):
                for i, g in enumerate(sg):
                    if g.a[0] is args[0]:
                        put(sg[:i] + sg[i + 1:])
                        return [(s, NONE)]
            put((spread(mk('removed', fz, args[0])),))
            return [(s, NONE)]
        if name == 'clear':
            put(())
            return [(s, NONE)]
        if name == 'copy':
            return [(s, self.newlist(s, fr, n, sg, tag='copy'))]
        if name == 'reverse':
            if known_len(sg):
                put(tuple(reversed(sg)))
            else:
                put((spread(mk('reversed', self.frz(s, ref))),))
            return [(s, NONE)]
        if name == 'sort':
            done = self.ordered(s, fr, n, sg, kw)
            if done is not None:
                out = []
                for s2, l in done:
                    s2.store[ref] = mk(s2.store[ref].op, tuple(l), *s2.store[ref].a[1:])
                    out.append((s2, NONE))
                return out
            put((spread(mk('sorted', self.frz(s, ref), kw.get('key', NONE), kw.get('reverse', FALSE))),))
            return [(s, NONE)]
        if name in ('index', 'count'):
            done = self.seq_where(s, fr, n, r.a[0], name, args)
            if done is not None:
                return done
            return [(s, mk('mcall', self.frz(s, ref), name, tuple(self.frz(s, a) for a in args)))]
        if name.startswith('__'):
            return None
        if not hasattr(list, name):
            self.diag(fr, n, 'attribute', 'list object has no attribute %s' % name)
            self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
            return []
        return None

    # ---- set
    def m_oset(self, s, fr, n, ref, r, name, args, kw):
        sg = r.a[0]

        def put(segs):
            s.store[ref] = mk('oset', tuple(segs))
        if self.watch_attr(s, ref, '()') and name in MUT_METHODS:
            self.event(s, fr, n, 'lmut', obj=ref, how=name, args=tuple(self.frz(s, a) for a in args))
        if name == 'add':
            if not self.hashable(s, fr, n, args[0]):
                return []
            if one(args[0]) not in sg:
                put(sg + (one(args[0]),))
            return [(s, NONE)]
        if name in ('update', 'union'):
            outs = [(s, sg)]
            for a in args:
                nxt = []
                for st, acc in outs:
                    for s2, g in self.iter_to_segs(st, fr, n, a):
                        g = tuple(self.as_segs(s2, x.a[0].a[0]) [0] if x.op == 'spread' and x.a[0].op == 'uniq' and len(self.as_segs(s2, x.a[0].a[0])) == 1 else x for x in g)
                        nxt.append((s2, acc + g))
                outs = nxt
            res = []
            for st, acc in outs:
                if name == 'update':
                    st.store[ref] = mk('oset', acc)
                    res.append((st, NONE))
                else:
                    res.append((st, self.newlist(st, fr, n, acc, 'oset', 'union')))
            return res
        el = self.ground_elems(s, ref)
        if name in ('discard', 'remove'):
            if all(g.op == 'one' for g in sg) and one(args[0]) in sg:
                put(tuple(g for g in sg if g is not one(args[0])))
            elif el is not None and self.gr(s, args[0]):
                if args[0] in el:
                    put(tuple(one(x) for x in el if x is not args[0]))
                elif name == 'remove':
                    self.raise_(s, mk('exc', 'KeyError', (args[0],)), fr, n)
                    return []
            else:
                put((spread(mk('removed', self.frz(s, ref), self.frz(s, args[0]))),))
            return [(s, NONE)]
        if name == 'copy':
            return [(s, self.newlist(s, fr, n, sg, 'oset', 'copy'))]
        if name == 'clear':
            put(())
            return [(s, NONE)]
        if name == 'pop' and el is not None and not args:
            if not el:
                self.raise_(s, mk('exc', 'KeyError', ()), fr, n)
                return []
            put(tuple(one(x) for x in el[1:]))
            return [(s, el[0])]
        if name == 'pop':
            v = mk('first', self.frz(s, ref))
            put((spread(mk('removed', self.frz(s, ref), v)),))
            return [(s, v)]
        if el is not None:
            base = name[:-7] if name.endswith('_update') else name
            if base in ('intersection', 'difference', 'symmetric_difference'):
                o = self.ground_setop(base, el, *[self.ground_elems(s, a) for a in args])
                if o is not None:
                    if base != name:
                        put(o)
                        return [(s, NONE)]
                    return [(s, self.newlist(s, fr, n, o, 'oset', name))]
            if name in ('issubset', 'issuperset', 'isdisjoint'):
                o = self.ground_elems(s, args[0])
                if o is not None:
                    return [(s, C(getattr(set(el), name)(o)))]
        if name in ('intersection_update', 'difference_update', 'symmetric_difference_update'):
            put((spread(mk('setop', name[:-7], self.frz(s, ref), tuple(self.frz(s, a) for a in args))),))
            return [(s, NONE)]
        if name in ('intersection', 'difference', 'symmetric_difference'):
            return [(s, self.newlist(s, fr, n, (spread(mk('setop', name, self.frz(s, ref), tuple(self.frz(s, a) for a in args))),), 'oset', name))]
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return [(s, mk('b', mk('setcmp', name, self.frz(s, ref), self.frz(s, args[0])), True))]
        if name.startswith('__'):
            return None
        if not hasattr(set, name):
            self.diag(fr, n, 'attribute', 'set object has no attribute %s' % name)
            self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
            return []
        return None

    # ---- dict
    def m_odict(self, s, fr, n, ref, r, name, args, kw):
        ents, rest = r.a
        if name == 'get':
            return self.dict_get(s, fr, n, ref, r, args[0], args[1] if len(args) > 1 else NONE)
        if name == 'keys':
            return [(s, mk('keys', r) if rest is not None else mktuple(tuple(one(k) for k, _ in ents)))]
        if name == 'values':
            return [(s, mk('values', r))]
        if name == 'items':
            return [(s, mk('items', r))]
        if name == 'copy':
            return [(s, self.newdict(s, fr, n, ents, rest))]
        if name == 'setdefault':
            for k, v in ents:
                if k is args[0]:
                    return [(s, v)]
            d = args[1] if len(args) > 1 else NONE
            if rest is None and (not ents or ((is_c(args[0]) or self.gr(s, args[0])) and all(is_c(k) or self.gr(s, k) for k, _ in ents))):
                s.store[ref] = mk('odict', dict_put(ents, args[0], d), rest)
                return [(s, d)]
            fz = self.frz(s, ref)
            t, f = self.branch(s, (mk('in', self.frz(s, args[0]), fz), True))
            out = []
            if t is not None:
                out.append((t, mk('get', fz, self.frz(t, args[0]))))
            if f is not None:
                f.store[ref] = mk('odict', dict_put(ents, args[0], d), rest)
                out.append((f, d))
            return out
        if name == 'update':
            e2, r2 = ents, rest
            if args:
                v = args[0]
                q = s.store.get(v) if v.op == 'ref' else None
                if q is not None and q.op == 'odict' and q.a[1] is None:
                    for k, x in q.a[0]:
                        e2 = dict_put(e2, k, x)
                else:
                    r2 = mk('upd', self.frz(s, ref), self.frz(s, v))
                    e2 = ()
            for k, x in kw.items():
                e2 = dict_put(e2, C(k), x)
            s.store[ref] = mk('odict', e2, r2)
            return [(s, NONE)]
        if name == 'pop':
            for k, v in ents:
                if k is args[0]:
                    s.store[ref] = mk('odict', tuple((a, b) for a, b in ents if a is not k), rest)
                    return [(s, v)]
            if rest is None and self.gr(s, args[0]) and all(self.gr(s, k) for k, _ in ents):
                if len(args) > 1:
                    return [(s, args[1])]
                self.raise_(s, mk('exc', 'KeyError', (args[0],)), fr, n)
                return []
            fz = self.frz(s, ref)
            s.store[ref] = mk('odict', (), mk('del', fz, self.frz(s, args[0])))
            return [(s, mk('get', fz, self.frz(s, args[0])))]
        if name == 'clear':
            s.store[ref] = mk('odict', (), None)
            return [(s, NONE)]
        if name.startswith('__'):
            return None
        if not hasattr(dict, name) and not name == 'move_to_end':
            self.diag(fr, n, 'attribute', 'dict object has no attribute %s' % name)
            self.raise_(s, mk('exc', 'AttributeError', ()), fr, n)
            return []
        return None

    # ============================================================== databases
    def x_sqlite3_connect(self, s, fr, n, args, kw):
        ref = self.alloc(s, fr, n, mk('oconn', 'sqlite'), 'conn')
        auto = kw.get('isolation_level')
        self.event(s, fr, n, 'connect', conn=ref, dialect='sqlite', args=tuple(self.frz(s, a) for a in args),
                   kwargs=tuple(sorted((k, self.frz(s, v)) for k, v in kw.items())))
        s.store[(ref, '#auto')] = TRUE if auto is NONE or kw.get('autocommit') is TRUE else FALSE
        return [(s, ref)]

    def x_MySQLdb_connect(self, s, fr, n, args, kw):
        ref = self.alloc(s, fr, n, mk('oconn', 'mysql'), 'conn')
        self.event(s, fr, n, 'connect', conn=ref, dialect='mysql', args=tuple(self.frz(s, a) for a in args),
                   kwargs=tuple(sorted((k, self.frz(s, v)) for k, v in kw.items())))
        s.store[(ref, '#auto')] = TRUE if kw.get('autocommit') is TRUE else FALSE
        return [(s, ref)]

    x_MySQLdb_Connect = x_MySQLdb_connect
    x_MySQLdb_connections_Connection = x_MySQLdb_connect

    def m_oconn(self, s, fr, n, ref, r, name, args, kw):
        if name == 'cursor':
            cur = self.alloc(s, fr, n, mk('ocur', ref), 'cur')
            s.store.pop((cur, '#last'), None)
            self.event(s, fr, n, 'open', cur=cur, conn=ref)
            return [(s, cur)]
        if name in ('commit', 'rollback', 'close'):
            self.event(s, fr, n, name + '_conn' if name == 'close' else name, conn=ref)
            return [(s, NONE)]
        if name == 'autocommit':
            s.store[(ref, '#auto')] = C(bool(cv(args[0]))) if args and is_c(args[0]) else s.store.get((ref, '#auto'), FALSE)
            self.event(s, fr, n, 'autocommit', conn=ref, value=args[0] if args else NONE)
            return [(s, NONE)]
        if name == 'begin':
            self.event(s, fr, n, 'begin', conn=ref)
            return [(s, NONE)]
        if name in ('execute', 'executemany', 'executescript'):
            cur = self.alloc(s, fr, n, mk('ocur', ref), 'cur')
            self.event(s, fr, n, 'open', cur=cur, conn=ref, implicit=True)
            out = []
            for s2, _ in self.m_ocur(s, fr, n, cur, s.store[cur], name, args, kw):
                out.append((s2, cur))
            return out
        self.event(s, fr, n, 'connother', conn=ref, name=name)
        return [(s, self.unk(fr, n, name))]

    def m_ocur(self, s, fr, n, ref, r, name, args, kw):
        conn = r.a[0]
        dialect = s.store[conn].a[0] if conn in s.store else '?'
        if name == 'executemany' and len(args) > 1:
            # one execution per parameter set
            def body(st, x):
                return [(s2, 'n', None) for s2, _ in self.m_ocur(st, fr, n, ref, r, 'execute', [args[0], x], {})]
            s.store[(ref, '#last')] = mk('norows')
            return [(s2, ref) for s2, k, _ in self.iterate(s, fr, n, args[1], body, 'executemany') if k == 'n']
        if name in ('execute', 'executemany', 'executescript'):
            sql = args[0] if args else C('')
            binds = None
            many_ = name == 'executemany'
            if len(args) > 1:
                b = self.frz(s, args[1])
                binds = b
            elif kw:
                binds = self.frz(s, list(kw.values())[0])
            rows = mk('rows', fr.ctx, self.site(n))
            if self.opts.rows is not None:
                # shape analysis: the result set is given
                w = self.opts.rows(sql, binds)
                if w is not None:
                    rows = w
            s.store[(ref, '#last')] = rows
            s.store.pop((ref, '#pos'), None)
            # a statement executed again at the same place in another iteration reads afresh
            for c in [c for c in s.facts if rows.op == 'rows' and has(c, rows)]:
                del s.facts[c]
            nd = self.event(s, fr, n, 'exec', cur=ref, conn=conn, dialect=dialect, sql=sql, binds=binds, many=many_, rows=rows,
                            script=name == 'executescript', auto=s.store.get((conn, '#auto')) is TRUE)
            if rows.op == 'rows':
                self.rowsites[rows] = nd.id if nd is not None else self.rowsites.get(rows)
            if s.store.get('#faults') is TRUE:
                f = s.copy()
                self.event(f, fr, n, 'fault', what='exec')
                self.raise_(f, mk('exc', 'dberror', ()), fr, n)
            return [(s, ref)]
        if name == 'close':
            self.event(s, fr, n, 'close', cur=ref, conn=conn)
            return [(s, NONE)]
        if name == 'fetchone':
            return self.fetchone(s, fr, n, ref, NONE)
        if name in ('fetchall', 'fetchmany'):
            self.event(s, fr, n, 'fetch', cur=ref, how=name)
            rows = s.store.get((ref, '#last'), mk('norows'))
            if name == 'fetchmany':
                rows = mk('some_of', rows)
            return [(s, self.newlist(s, fr, n, rows.a[0] if rows.op == 'tuple' else (spread(rows),), tag='rows'))]
        return None

    def fetchone(self, s, fr, n, ref, default):
        self.event(s, fr, n, 'fetch', cur=ref, how='one')
        rows = s.store.get((ref, '#last'), mk('norows'))
        pos = s.store.get((ref, '#pos'))
        if pos is not None:
            return [(s, mk('nextrow', rows, fr.ctx, self.site(n)))]
        s.store[(ref, '#pos')] = C(1)
        t, f = self.branch(s, (mk('some', rows), True))
        out = []
        if t is not None:
            out.append((t, item(rows, C(0))))
        if f is not None:
            if default is None:
                self.raise_(f, mk('exc', 'StopIteration', ()), fr, n)
            else:
                out.append((f, default))
        return out


def table_of(t):
    """constant dictionary of a frozen dict term, or None"""
    if t.op != 'dict' or (len(t.a) > 1 and t.a[1] is not None):
        return None
    if not all(is_c(k) and is_c(v) for k, v in t.a[0]):
        return None
    return {cv(k): cv(v) for k, v in t.a[0]}


PURE_BUILTINS = {'hash', 'id', 'hex', 'bin', 'oct', 'divmod', 'pow', 'bytes', 'ascii', 'vars', 'dir', 'locals', 'globals', 'complex',
                 'memoryview', 'bytearray', 'issubclass'}
STR_METHODS_ONLY = {'startswith', 'endswith', 'split', 'rsplit', 'splitlines', 'lower', 'upper', 'strip', 'lstrip', 'rstrip',
                    'isspace', 'isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'replace', 'partition', 'rpartition',
                    'join', 'casefold', 'title', 'capitalize', 'find', 'rfind', 'translate', 'zfill', 'encode', 'islower', 'isupper'}


def op_may_be_container(obj):
    return obj.op in ('param', 'attr', 'item', 'get', 'phi', 'ret', 'mcall', 'call', 'unk', 'slice', 'values', 'global', 'first',
                      'tuple', 'uniq', 'default', 'next', 'join?', 'concat')


class Engine(Models):
    def run(self, fn_src, name, modules=None):
        """interprets function `name` of the driver source"""
        return run_driver(self, fn_src, name)


def run_driver(eng, src, name):
    """Analyses driver function `name`; returns [(state, kind, value)] with kind 'r' or 'raise'."""
    mod = eng.prog.modules.get('driver')
    if mod is None or mod.src != src:
        mod = eng.prog.load('<driver>', name='driver', src=src)
    node = None
    for d in mod.defs.get(name, ()):
        if d[0] == 'func':
            node = d[1]
    if node is None:
        raise KeyError(name)
    s = S({}, {}, eng.entry.id)
    fr = eng.modframe(mod)
    fv = eng.func_value(s, mod, node, name, None, None, None)
    args = []
    fi = eng.fi_of(fv)
    params = [p.arg for p in node.args.args]
    for p in params:
        args.append(mk('param', p))
    eng.sinks = [[]]
    outs = [(st, 'r', v) for st, v in eng.inline(s, fr, node, fv, args, {})]
    for st, exc in eng.merge_raises(eng.sinks[0]):
        outs.append((st, 'raise', exc))
    # final nodes
    for st, k, v in outs:
        nd = eng.newnode('exit', {'kind': k, 'value': eng.frz(st, v), 'store': None}, dict(st.facts), '')
        eng.link(st.node, nd.id, st.facts)
        st.node = nd.id
    return outs
