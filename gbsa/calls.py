"""Function calls, loops and models of builtins and libraries."""
import ast

from .terms import (alpha, T, mk, C, NONE, TRUE, FALSE, is_c, cv, is_int, mkstr, unstr, one, tup, mktuple, many, spread,
                    known_len, seg_vals, item, add, sub, mul, subst, length, walk, mentions, has, str_parts)
from .interp import Fi, Frame, S, Limit, EXC_NAMES, TYPE_NAMES, kind_of, inst_ok
from .exec import Exec, dict_put, seg_slice

BV = mk('it', 0)


def binder(*ts):
    """a bound variable not used inside the terms"""
    used = [x.a[0] for t in ts for x in walk(t) if x.op == 'it' and isinstance(x.a[0], int) and x.a[0] <= 0]
    return mk('it', min(used) - 1) if used else BV
PURE_EXT = ('math.', 'itertools.', 'numpy.', 'operator.', 'functools.', 're.', 'string.', 'collections.', 'copy.',
            'random.', 'os.path.', 'hashlib.', 'struct.', 'json.', 'unicodedata.', 'decimal.', 'ast.')
READ_EXT = ('spacy.', 'nltk.', 'asciitree.', 'click.')


class Calls(Exec):
    # ============================================================== calling
    def call(self, s, fr, n, fv, args, kwargs):
        self.tick()
        op = fv.op
        if op == 'func':
            return self.inline(s, fr, n, fv, args, kwargs)
        if op == 'bound':
            f, selfv = fv.a
            return self.call(s, fr, n, f, [selfv] + list(args), kwargs)
        if op == 'decorated':
            f, dec = fv.a
            if dec.endswith('contextmanager'):
                return [(s, mk('cmgen', f, tuple(args), tuple(sorted(kwargs.items()))))]
            if dec in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'staticmethod', 'abc.abstractmethod',
                       'typing.overload', 'atexit.register'):
                return self.call(s, fr, n, f, args, kwargs)
            if self.opts.transparent is not None and self.opts.transparent(dec):
                return self.call(s, fr, n, f, args, kwargs)
            return self.opaque_call(s, fr, n, fv, args, kwargs)
        if op == 'cls':
            return self.instantiate(s, fr, n, fv.a[0], args, kwargs)
        if op == 'ext':
            return self.call_ext(s, fr, n, fv.a[0], args, kwargs)
        if op == 'meth':
            return self.method(s, fr, n, fv.a[0], fv.a[1], args, kwargs)
        if op == 'attr':
            return self.method(s, fr, n, fv.a[0], fv.a[1], args, kwargs)
        if op == 'partial':
            f, pa, pk = fv.a
            kw = dict(pk)
            kw.update(kwargs)
            return self.call(s, fr, n, f, list(pa) + list(args), kw)
        if op in ('mod', 'const', 'tuple', 'str', 'len', 'lin', 'range'):
            self.diag(fr, n, 'call', '%s is not callable' % ('module %s' % fv.a[0] if op == 'mod' else (kind_of(fv) or op)))
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        if op == 'ref':
            r = s.store.get(fv)
            if r is not None and r.op in ('olist', 'oset', 'odict'):
                self.diag(fr, n, 'call', '%s is not callable' % r.op[1:])
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return []
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], '__call__')
                if m:
                    return self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), fv), args, kwargs)
        return self.opaque_call(s, fr, n, fv, args, kwargs)

    def opaque_call(self, s, fr, n, fv, args, kwargs):
        """call of an unknown function value: an event with an unknown result"""
        fz = tuple(self.frz(s, a) for a in args)
        kz = tuple(sorted((k, self.frz(s, v)) for k, v in kwargs.items()))
        self.event(s, fr, n, 'call', func=fv, args=fz, kwargs=kz, rawargs=tuple(args))
        self.maybe_fault(s, fr, n, 'callback')
        v = mk('ret', fv, fz, kz, fr.ctx, self.site(n))
        if self.opts.opaque_ret:
            w = self.opts.opaque_ret(self, s, fr, n, fv, fz, kz)
            if w is not None:
                return w
        return [(s, v)]

    def maybe_fault(self, s, fr, n, kind):
        if s.store.get('#faults') is TRUE and self.opts.callback_raises:
            f = s.copy()
            self.event(f, fr, n, 'fault', what=kind)
            self.raise_(f, mk('exc', 'any', ()), fr, n)

    def fqual(self, fi):
        return fi.mod.name + '.' + fi.qual

    def inline(self, s, fr, n, fv, args, kwargs, handler=None):
        fi = self.fi_of(fv)
        self.analysed.add((fi.mod.path, fi.qual))
        if fi.is_gen and handler is None:
            return [(s, mk('gen', fv, tuple(args), tuple(sorted(kwargs.items())), fr.ctx, self.site(n)))]
        if fi.mod.name != 'driver':
            oq = self.opts.opaque(fi)
            if oq:
                pre = self.check_args(s, fr, n, fi, args, kwargs)
                if not pre:
                    return []
                fz = tuple(self.frz(s, a) for a in self.pos_args(fi, args, kwargs))
                if callable(oq):
                    w = oq(self, s, fr, n, fz)
                    return [(s, w if w is not None else mk('call', self.fqual(fi), fz))]
                if oq == 'event':
                    self.event(s, fr, n, 'call', func=mk('fn', self.fqual(fi)), args=fz, kwargs=(), rawargs=tuple(args))
                    self.maybe_fault(s, fr, n, 'callback')
                    return [(s, mk('ret', mk('fn', self.fqual(fi)), fz, (), fr.ctx, self.site(n)))]
                if oq == 'bool':
                    return [(s, mk('b', mk('pred', self.fqual(fi), tuple(alpha(x) for x in fz)), True))]
                return [(s, mk('call', self.fqual(fi), fz))]
        depth = self.callstack.count(fi.fid)
        limit = self.opts.rec_depth
        if depth:
            if any(self.structured(s, a) for a in args):
                limit = max(limit, self.opts.struct_depth)
        if depth >= limit and depth > 0 or len(self.callstack) > max(60, 6 * self.opts.struct_depth):
            if self.opts.rec_abort:
                raise Limit('recursion of %s' % fi.qual)
            fz = tuple(self.frz(s, a) for a in self.pos_args(fi, args, kwargs))
            self.event(s, fr, n, 'rec', func=mk('fn', self.fqual(fi)), args=fz, rawargs=tuple(args))
            return [(s, mk('call', self.fqual(fi), fz))]
        if not self.check_args(s, fr, n, fi, args, kwargs):
            return []
        ctx = self.subctx(fr.ctx, (self.site(n), fi.fid))
        addr = mk('frame', ctx, fi.fid)
        nfr = Frame(fi, fi.mod, addr, ctx, self.where(fr, n), handler)
        if fv.a[1] is not None:
            s.store[(addr, '#parent')] = fv.a[1]
        sts = self.bind_args(s, nfr, fr, n, fi, fv, args, kwargs)
        self.callstack.append(fi.fid)
        if self.opts.drop:
            self.sinks.append([])
        try:
            outs = []
            for st in sts:
                if isinstance(fi.node, ast.Lambda):
                    outs += [(s2, v) for s2, v in self.ev(fi.node.body, nfr, st)]
                else:
                    for s2, k, v in self.block(fi.node.body, nfr, st):
                        outs.append((s2, v if k == 'r' else NONE))
        finally:
            self.callstack.pop()
            if self.opts.drop:
                raised = self.sinks.pop()
        if self.opts.drop:
            by = {}
            for s2, exc in raised:
                self.collect(s2, ctx, exc)
                self.drop_facts(s2, ctx, exc)
                by.setdefault(exc, []).append(s2)
            for exc, sl in by.items():
                for s2 in self.merge(self.join_last(sl)):
                    self.raise_(s2, exc, fr, n)
        by = {}
        for s2, v in outs:
            self.collect(s2, ctx, v)
            if self.opts.drop:
                self.drop_facts(s2, ctx, v)
            by.setdefault(v, []).append(s2)
        res = []
        for v, sl in by.items():
            for s2 in self.merge(self.join_last(sl)):
                res.append((s2, v))
        return res

    def rows_in(self, t):
        k = ('rows', t)
        r = self.refcache.get(k)
        if r is None:
            r = frozenset(x for x in walk(t) if x.op in ('rows', 'anyrows'))
            self.refcache[k] = r
        return r

    def drop_facts(self, s, ctx, rv):
        """forgets conditions about rows that only the finished call could see"""
        dead = []
        keep = None
        for c in s.facts:
            rs = self.rows_in(c)
            if rs and all(x.op == 'anyrows' or self.in_ctx(x.a[0], ctx) for x in rs):
                dead.append((c, rs))
        if not dead:
            return
        keep = set(self.rows_in(rv)) if isinstance(rv, T) else set()
        for k, v in s.store.items():
            if isinstance(v, T) and not (isinstance(k, tuple) and k[-1] in ('#last', '#pos')):
                keep |= self.rows_in(v)
        dead = [c for c, rs in dead if not (rs & keep)]
        if not dead:
            return
        if not self.dry:
            nd = self.newnode('join', {}, dict(s.facts), '')
            self.link(s.node, nd.id, s.facts)
            s.node = nd.id
        for c in dead:
            del s.facts[c]

    def join_last(self, sl):
        """states that only differ in which statement a shared cursor ran last become one"""
        if len(sl) < 2:
            return sl
        def aux(k):
            return isinstance(k, tuple) and len(k) == 2 and k[1] in ('#last', '#pos')
        groups = {}
        for s in sl:
            groups.setdefault(frozenset((k, v) for k, v in s.store.items() if not aux(k)), []).append(s)
        for g in groups.values():
            if len(g) < 2:
                continue
            keys = {k for s in g for k in s.store if aux(k)}
            for k in keys:
                vs = {s.store.get(k) for s in g}
                if len(vs) > 1:
                    for s in g:
                        if k[1] == '#last':
                            s.store[k] = mk('anyrows', k[0])
                        else:
                            s.store[k] = C(1)
        return sl

    def in_ctx(self, c, top):
        while c is not None:
            if c == top:
                return True
            c = self.ctx_parent.get(c)
        return False

    def refs_in(self, t):
        r = self.refcache.get(t)
        if r is None:
            r = frozenset(x for x in walk(t) if x.op in ('ref', 'frame'))
            self.refcache[t] = r
        return r

    def collect(self, s, ctx, rv):
        """drops what a finished call allocated and nothing refers to any more"""
        if self.opts.rec_abort and self.gc_at:
            # one path over a structure of known shape: cheaper to keep what is dead for a while
            if len(s.store) < self.gc_at:
                return
        owned = {}
        work = list(self.refs_in(rv)) if isinstance(rv, T) else []
        for k, v in s.store.items():
            o = k if isinstance(k, T) else k[0] if isinstance(k, tuple) and isinstance(k[0], T) else None
            if o is not None and o.op in ('ref', 'frame') and self.in_ctx(o.a[0], ctx):
                owned.setdefault(o, []).append(k)
            elif isinstance(v, T):
                work.extend(self.refs_in(v))
        if not owned:
            return
        seen = set()
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            for k in owned.get(o, ()):
                v = s.store[k]
                if isinstance(v, T):
                    work.extend(self.refs_in(v))
        for o, ks in owned.items():
            if o not in seen:
                for k in ks:
                    del s.store[k]
        if self.opts.rec_abort:
            self.gc_at = max(400, 2 * len(s.store))

    def structured(self, s, a):
        """value of known shape: recursion on it terminates"""
        if a.op == 'tuple':
            return True
        if a.op == 'const':
            return True
        if a.op == 'str':
            return True
        if a.op == 'ref':
            r = s.store.get(a)
            if r is not None and r.op in ('olist',):
                return known_len(r.a[0])
            if r is not None and r.op == 'oinst':
                return True
        return any(self.known(s, mk('isinst', a, (k,))) for k in ('str', 'int', 'float')) if a.op in ('param', 'item') else False

    def pos_args(self, fi, args, kwargs):
        names = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args]
        out = list(args)
        for nm in names[len(args):]:
            if nm in kwargs:
                out.append(kwargs[nm])
            else:
                # default value
                dfl = fi.node.args.defaults
                i = names.index(nm) - (len(names) - len(dfl))
                if 0 <= i < len(dfl):
                    d = dfl[i]
                    if isinstance(d, ast.Constant):
                        out.append(C(d.value))
                    elif isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
                        out.append(C(-d.operand.value))
                    else:
                        out.append(mk('default', fi.fid, i))
        return out

    def check_args(self, s, fr, n, fi, args, kwargs):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if any(x.op == 'starargs' for x in args) or '**' in kwargs:
            return True
        msg = None
        if len(args) > len(pos) and not a.vararg:
            msg = '%s takes at most %d arguments, %d given' % (fi.qual, len(pos), len(args))
        else:
            given = set(pos[:len(args)])
            for k in kwargs:
                if k in given:
                    msg = '%s got several values for %s' % (fi.qual, k)
                if k not in pos and k not in [p.arg for p in a.kwonlyargs] and not a.kwarg:
                    msg = '%s has no parameter %s' % (fi.qual, k)
            nod = pos[:len(pos) - len(a.defaults)]
            miss = [p for p in nod[len(args):] if p not in kwargs]
            miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kwargs]
            if miss:
                msg = '%s misses argument %s' % (fi.qual, ', '.join(miss))
        if msg:
            self.diag(fr, n, 'args', msg)
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return False
        return True

    def bind_args(self, s, nfr, fr, n, fi, fv, args, kwargs):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        addr = nfr.addr
        star = [i for i, x in enumerate(args) if x.op == 'starargs']
        vals = {}
        rest = []
        if star:
            i = star[0]
            for nm, v in zip(pos, args[:i]):
                vals[nm] = v
            base = args[i].a[0]
            for j, nm in enumerate(pos[i:]):
                if nm not in kwargs:
                    vals[nm] = item(base, C(j))
            rest = [spread(base)]
        else:
            for nm, v in zip(pos, args):
                vals[nm] = v
            rest = [one(v) for v in args[len(pos):]]
        kw = dict(kwargs)
        for nm in pos + [p.arg for p in a.kwonlyargs]:
            if nm in kw and nm not in vals:
                vals[nm] = kw.pop(nm)
        if a.vararg:
            vals[a.vararg.arg] = mktuple(rest)
        if a.kwarg:
            ref = mk('ref', nfr.ctx, self.site(fi.node, 'kw'))
            s.store[ref] = mk('odict', tuple((C(k), v) for k, v in kw.items() if k != '**'), kw.get('**'))
            vals[a.kwarg.arg] = ref
        # defaults
        names = pos
        dfl = list(a.defaults)
        need = []
        for i, nm in enumerate(names):
            if nm not in vals:
                di = i - (len(names) - len(dfl))
                if 0 <= di < len(dfl):
                    need.append((nm, dfl[di], di))
        for i, p in enumerate(a.kwonlyargs):
            if p.arg not in vals and a.kw_defaults[i] is not None:
                need.append((p.arg, a.kw_defaults[i], len(dfl) + sum(1 for d in a.kw_defaults[:i] if d is not None)))
        sts = [s]
        for nm, d, di in need:
            nxt = []
            for st in sts:
                if len(fv.a) > 2 and fv.a[2] is not None and di < len(fv.a[2]):
                    st.store[(addr, nm)] = fv.a[2][di]
                    nxt.append(st)
                    continue
                key = ('D', fi.fid, di)
                if key in st.store:
                    st.store[(addr, nm)] = st.store[key]
                    nxt.append(st)
                    continue
                for s2, v in self.ev(d, self.modframe(fi.mod), st):
                    if v.op == 'ref':
                        s2.store[key] = v
                    s2.store[(addr, nm)] = v
                    nxt.append(s2)
            sts = nxt
        for st in sts:
            for nm, v in vals.items():
                st.store[(addr, nm)] = v
        return sts

    def call_gen(self, s, fr, n, fv, args, kw, handler):
        return self.inline(s, fr, n, fv, args, kw, handler=handler)

    def instantiate(self, s, fr, n, cid, args, kwargs):
        if ':' not in cid:
            if cid in EXC_NAMES:
                return [(s, mk('exc', cid, tuple(self.frz(s, a) for a in args)))]
            return self.opaque_call(s, fr, n, mk('cls', cid), args, kwargs)
        info = self.cls_info(cid)
        order = self.mro(cid)
        for c in order:
            nd = self.cls_info(c)['node']
            if nd is not None:
                for b in nd.bases:
                    if isinstance(b, ast.Name) and b.id in EXC_NAMES:
                        return [(s, mk('exc', cid, tuple(self.frz(s, a) for a in args)))]
        ref = mk('ref', fr.ctx, self.site(n, 'new'))
        # fresh fields
        for k in [k for k in s.store if isinstance(k, tuple) and k[0] is ref]:
            del s.store[k]
        s.store[ref] = mk('oinst', cid)
        m = self.find_method(cid, '__init__')
        if m is None:
            if (args or kwargs) and self.closed_class(cid):
                self.diag(fr, n, 'args', '%s takes no arguments' % cid.split(':')[1])
                self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
                return []
            if not self.closed_class(cid):
                s.store[(ref, '#open')] = TRUE
            return [(s, ref)]
        if not self.closed_class(cid):
            s.store[(ref, '#open')] = TRUE
        out = []
        for s2, _ in self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), ref), args, kwargs):
            out.append((s2, ref))
        return out

    # ============================================================== iteration
    def iter_to_segs(self, s, fr, n, v):
        """[(s, segs)] of any iterable value, running generators"""
        if v.op == 'gen':
            ref = mk('ref', fr.ctx, self.site(n, 'gl'))
            s.store[ref] = mk('olist', ())

            def body(st, x):
                st.store[ref] = mk('olist', st.store[ref].a[0] + (one(x),))
                return [(st, 'n', None)]
            out = []
            for s2, k, _ in self.iterate(s, fr, n, v, body):
                out.append((s2, s2.store[ref].a[0]))
            return out
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op == 'ocur':
                rows = s.store.get((v, '#last'), mk('norows'))
                return [(s, rows.a[0] if rows.op == 'tuple' else (spread(rows),))]
            if r is not None and r.op == 'oset':
                sg = self.segs_of(s, v)
                return [(s, sg)]
            if r is not None and r.op == 'ofile':
                s.store[v] = mk('ofile', r.a[0], len(r.a[0]))
                return [(s, tuple(one(x) for x in r.a[0][r.a[1]:]))]
        if v is NONE or is_int(v):
            self.diag(fr, n, 'type', '%s is not iterable' % (kind_of(v)))
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        return [(s, tuple(self.as_segs(s, v)))]

    def drain(self, s, fr, n, v, body, key):
        """a loop over an iterator, which the body may advance as well"""
        cur, done = [s], []
        octx = fr.ctx
        i = 0
        while cur:
            nxt = []
            for st in cur:
                vals, pos = st.store[v].a
                if pos >= len(vals):
                    done.append((st, 'n', None))
                    continue
                st.store[v] = mk('ofile', vals, pos + 1)
                fr.ctx = self.subctx(octx, ('u', self.site(n), i, key))
                try:
                    rs = body(st, vals[pos])
                finally:
                    fr.ctx = octx
                for o in rs:
                    if o[1] in ('n', 'c'):
                        nxt.append(o[0])
                    else:
                        done.append(o)
            cur = self.merge(nxt)
            i += 1
        return done

    def iterate(self, s, fr, n, v, body, key=0):
        """runs body for every element; outcomes: n (exhausted), b, r"""
        if v.op == 'gen':
            fv, args, kw = v.a[:3]

            def handler(st, x):
                cont = []
                for s2, k, val in body(st, x):
                    if k in ('n', 'c'):
                        cont.append(s2)
                    else:
                        s2.store['#esc'] = mk('esc', k, val if val is not None else NONE)
                        self.raise_(s2, mk('exc', 'GeneratorExit', ()), fr, n)
                return cont
            self.sinks.append([])
            outs = []
            try:
                for s2, _ in self.call_gen(s, fr, n, fv, list(args), dict(kw), handler):
                    outs.append((s2, 'n', None))
            finally:
                rs = self.sinks.pop()
            for s2, exc in rs:
                if exc.a[0] == 'GeneratorExit' and '#esc' in s2.store:
                    e = s2.store.pop('#esc')
                    outs.append((s2, e.a[0], e.a[1]))
                else:
                    self.raise_(s2, exc, fr, n)
            return outs
        if v.op == 'ref':
            r = s.store.get(v)
            if r is not None and r.op == 'ocur':
                self.event(s, fr, n, 'fetch', cur=v, how='iter')
                rows = s.store.get((v, '#last'), mk('norows'))
                if rows.op == 'tuple':
                    return self.iterate(s, fr, n, rows, body, (key, 'rows'))
                return self.gen_loop(s, fr, n, rows, body, (key, 'rows'))
            if r is not None and r.op == 'ofile':
                return self.drain(s, fr, n, v, body, key)
            if r is not None and r.op == 'oinst' and ':' in r.a[0]:
                m = self.find_method(r.a[0], '__iter__')
                if m and m[1] == 'method':
                    out = []
                    for s2, it in self.call(s, fr, n, mk('bound', self.method_func(s, m[0], m[2]['method']), v), [], {}):
                        out += self.iterate(s2, fr, n, it, body, key)
                    return out
        if v is NONE or is_int(v) or v.op in ('func', 'bound', 'len', 'lin', 'b'):
            self.diag(fr, n, 'type', '%s is not iterable' % (kind_of(v) or v.op))
            self.raise_(s, mk('exc', 'TypeError', ()), fr, n)
            return []
        segs = self.segs_of(s, v)
        if segs is None:
            segs = (spread(self.frz(s, v)),)
        cur = [s]
        done = []
        if sum(1 for g in segs if g.op == 'one') > self.opts.unroll and not self.cheap(segs) and not self.spelled(v, segs):
            segs = (spread(self.frz(s, v)),)
        octx = fr.ctx
        for i, g in enumerate(segs):
            nxt = []
            for st in cur:
                if g.op == 'one':
                    fr.ctx = self.subctx(octx, ('u', self.site(n), i, key))
                    try:
                        rs = body(st, g.a[0])
                    finally:
                        fr.ctx = octx
                elif g.op == 'spread':
                    rs = self.gen_loop(st, fr, n, g.a[0], body, (key, i))
                elif g.op == 'many':
                    rs = self.many_loop(st, fr, n, g, body, (key, i))
                else:
                    rs = self.gen_loop(st, fr, n, mk('tuple', (g,)), body, (key, i))
                for o in rs:
                    if o[1] in ('n', 'c'):
                        nxt.append(o[0])
                    else:
                        done.append(o)
            cur = self.merge(nxt)
            if not cur:
                break
        return [(st, 'n', None) for st in cur] + done

    def cheap(self, segs):
        return len(segs) <= 5200 and self.opts.unroll >= 40 and getattr(self.opts, 'long_unroll', False)

    def spelled(self, v, segs=()):
        """known values, at most some hundreds, perhaps numbered or paired"""
        if segs and len(segs) <= 400 and all(g.op == 'one' and is_c(g.a[0]) for g in segs):
            return True
        return is_c(v, str) or v.op == 'enum' and self.spelled(v.a[0]) or v.op == 'zip' and any(self.spelled(c) for c in v.a)

    def norm_coll(self, v):
        """(collection, element for index it) in canonical form"""
        def elem(it):
            return item(v, it)
        if v.op == 'range':
            lo, hi, st = v.a
            if is_int(lo) and cv(lo) == 0 and is_int(st) and cv(st) == 1:
                if hi.op == 'len':
                    return hi.a[0], (lambda it: it)
                return v, (lambda it: it)
            return v, (lambda it: add(lo, mul(st, it)))
        if v.op == 'enum':
            base, _ = self.norm_coll(v.a[0])
            return base, elem
        if v.op == 'keys':
            return v, elem
        if v.op == 'slice' and v.a[3] is NONE and v.a[2] is NONE and is_int(v.a[1]) and cv(v.a[1]) > 0:
            return v, elem
        return v, elem

    def gen_loop(self, s, fr, n, coll, body, key):
        C_, elem = self.norm_coll(coll)
        known = self.known(s, mk('some', C_))
        if known is False:
            return [(s, 'n', None)]
        L = self.lid(fr, n, key)

        def step(h):
            return body(h, elem(mk('it', L))), None
        return self.summarise(s, fr, n, L, C_, step)

    def turn_value(self, s, sg, it):
        """a list made in every turn of another loop is not one object: its content instead"""
        if sg.op == 'one' and sg.a[0].op == 'ref' and s.store.get(sg.a[0]) is not None and s.store[sg.a[0]].op in ('olist', 'oset', 'odict'):
            z = self.frz(s, sg.a[0])
            if has(z, it):
                return one(z)
        return sg

    def many_loop(self, s, fr, n, g, body, key):
        """loop over a collection that another loop built: loop over the original one"""
        L0, C_, alts = g.a
        if self.known(s, mk('some', C_)) is False:
            return [(s, 'n', None)]
        L = self.lid(fr, n, key)
        m = {mk('it', L0): mk('it', L)}

        def step(h):
            outs = []
            for facts, segs in alts:
                st = h.copy()
                ok = True
                for c, pol in facts:
                    c2 = subst(c, m)
                    k = self.known(st, c2)
                    if k is not None and k != pol:
                        ok = False
                        break
                    st.facts[c2] = pol
                if not ok:
                    continue
                cur = [st]
                segs = tuple(self.turn_value(st, sg, mk('it', L0)) for sg in segs)
                for i, sg in enumerate(subst(segs, m)):
                    nxt = []
                    for x in cur:
                        if sg.op == 'one':
                            rs = body(x, sg.a[0])
                        elif sg.op == 'spread':
                            rs = self.gen_loop(x, fr, n, sg.a[0], body, key + (L, i))
                        elif sg.op == 'many':
                            rs = self.many_loop(x, fr, n, sg, body, key + (L, i))
                        else:
                            rs = self.gen_loop(x, fr, n, mk('tuple', (sg,)), body, key + (L, i))
                        for o in rs:
                            if o[1] in ('n', 'c'):
                                nxt.append(o[0])
                            else:
                                outs.append(o)
                    cur = nxt
                outs += [(x, 'n', None) for x in cur]
            return outs, None
        return self.summarise(s, fr, n, L, C_, step)

    def while_loop(self, n, fr, s):
        # unroll as long as the condition is decided
        const_test = isinstance(n.test, ast.Constant)
        done = []
        cur = [s]
        octx = fr.ctx
        rounds = 0
        if not const_test and not self.opts.finite and self.counts_up(n, fr, s):
            return self.while_sum(n, fr, s)
        while cur and not const_test:
            nxt = []
            undecided = []
            for st in cur:
                probe = self.probe_test(n, fr, st)
                if probe is None:
                    undecided.append(st)
                    continue
                fr.ctx = self.subctx(octx, ('w', self.site(n), rounds))
                try:
                    for s2, v in self.ev(n.test, fr, st):
                        t, f = self.branchv(s2, v)
                        if f is not None:
                            done.append((f, 'n', None))
                        if t is not None:
                            for o in self.block(n.body, fr, t):
                                if o[1] in ('n', 'c'):
                                    nxt.append(o[0])
                                else:
                                    done.append(o)
                finally:
                    fr.ctx = octx
            for st in undecided:
                done += self.while_sum(n, fr, st)
            cur = self.merge(nxt)
            rounds += 1
            if rounds > max(400, self.opts.unroll):
                for st in cur:
                    done += self.while_sum(n, fr, st)
                cur = []
        if const_test:
            forever = isinstance(n.test.value, (bool, int)) and bool(n.test.value)
            while cur and forever and rounds < 400:
                nxt = []
                fr.ctx = self.subctx(octx, ('w', self.site(n), rounds))
                try:
                    for st in cur:
                        if not self.one_way(n, fr, st):
                            fr.ctx = octx
                            done += self.while_sum(n, fr, st)
                            continue
                        for o in self.block(n.body, fr, st):
                            if o[1] in ('n', 'c'):
                                nxt.append(o[0])
                            else:
                                done.append(o)
                finally:
                    fr.ctx = octx
                cur = nxt
                rounds += 1
            for st in cur:
                done += self.while_sum(n, fr, st)
        return done

    def one_way(self, n, fr, s):
        """does a turn of the loop from this state have a single outcome?"""
        self.dry += 1
        self.sinks.append([])
        try:
            outs = self.block(n.body, fr, s.copy())
            return len(outs) + len(self.sinks[-1]) == 1
        finally:
            self.sinks.pop()
            self.dry -= 1

    def counts_up(self, n, fr, s):
        """is the condition that a number is below the unknown length of something?"""
        c = n.test
        if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.NotEq, ast.Gt))):
            return False
        a, b = c.left, c.comparators[0]
        if isinstance(c.ops[0], ast.Gt):
            a, b = b, a
        if not isinstance(a, ast.Name):
            return False
        self.dry += 1
        self.sinks.append([])
        try:
            va = [v for _, v in self.ev(a, fr, s.copy())]
            vb = [v for _, v in self.ev(b, fr, s.copy())]
        finally:
            self.sinks.pop()
            self.dry -= 1
        return len(va) == 1 and len(vb) == 1 and is_int(va[0]) and vb[0].op == 'len'

    def probe_test(self, n, fr, s):
        """truth value of the loop condition if it is decided, else None"""
        self.dry += 1
        self.sinks.append([])
        try:
            vals = set()
            for s2, v in self.ev(n.test, fr, s.copy()):
                r = self.truth(s2, v)
                if not isinstance(r, bool):
                    k = self.known(s2, r[0])
                    if k is None:
                        return None
                    # decided by facts only: still unknown in general
                    return None if True else k
                vals.add(r)
            return vals.pop() if len(vals) == 1 else None
        finally:
            self.sinks.pop()
            self.dry -= 1

    def while_sum(self, n, fr, s):
        L = self.lid(fr, n, 'w')
        C_ = mk('while', L)

        def step(h):
            outs, exits = [], []
            for s2, v in self.ev(n.test, fr, h):
                r = self.truth(s2, v)
                t, f = self.branch(s2, r)
                if f is not None:
                    exits.append(f)
                if t is not None:
                    if not isinstance(r, bool):
                        step.conds.add(r)
                    outs += self.block(n.body, fr, t)
            return outs, exits
        step.conds = set()
        return self.summarise(s, fr, n, L, C_, step, loop_while=True)

    # -------------------------------------------------------------- summarised loops
    def phi_value(self, L, k, init):
        if init.op in ('olist', 'oset'):
            return mk(init.op, (mk('phi', L, k),))
        if init.op == 'odict':
            return mk('odict', (), mk('phi', L, k))
        return mk('phi', L, k)

    def same_again(self, e, h, heads):
        """a list that only one variable refers to, rebound to a new list with the same content, is the same list"""
        for k, v in list(e.store.items()):
            o = h.store.get(k)
            if o is None or o is v or k in heads or not (isinstance(v, T) and v.op == 'ref' and isinstance(o, T) and o.op == 'ref'):
                continue
            r0, r1 = e.store.get(o), e.store.get(v)
            if r0 is None or r0 is not r1 or r0.op not in ('olist', 'oset') or h.store.get(o) is not r0:
                continue
            if any(isinstance(w, T) and k2 != k and (has(w, o) or has(w, v)) for k2, w in e.store.items()):
                continue
            e.store[k] = o

    def summarise(self, s, fr, n, L, C_, step, loop_while=False):
        if self.opts.finite:
            return self.finite_loop(s, fr, n, L, C_, step, loop_while)
        if self.opts.rec_abort and not self.dry:
            self.imprecise.append('loop of unknown length')
        it = mk('it', L)
        heads = {}
        induct = {}
        self.dry += 1
        self.loops.append(L)
        ends = []
        try:
            for rnd in range(12):
                h = s.copy()
                h.store.update(heads)
                if not loop_while:
                    self.loop_facts(h, C_, it)
                base = h.copy()
                self.sinks.append([])
                try:
                    if loop_while:
                        step.conds = set()
                    outs, exits = step(h)
                finally:
                    self.sinks.pop()
                ends = [o[0] for o in outs if o[1] in ('n', 'c')]
                for e in ends:
                    self.same_again(e, base, heads)
                new = {}
                for e in ends:
                    for k, v in e.store.items():
                        if k in base.store and k not in heads and base.store[k] is not v:
                            new[k] = self.phi_value(L, k, s.store[k])
                if new:
                    heads.update(new)
                    continue
                # inductions
                again = False
                for k in list(heads):
                    if k in induct:
                        # must remain consistent
                        nxt = subst(heads[k], {it: add(it, C(1))}) if isinstance(heads[k], T) else None
                        if any(e.store.get(k) is not nxt for e in ends):
                            heads[k] = self.phi_value(L, k, s.store[k])
                            induct[k] = None
                            again = True
                        continue
                    ups = {e.store.get(k) for e in ends}
                    if len(ups) != 1:
                        continue
                    u = ups.pop()
                    phi = mk('phi', L, k)
                    if u is None or s.store[k].op in ('odict', 'oset'):
                        continue
                    init = s.store[k]
                    cand = None
                    if init.op == 'olist':
                        # queue consumption on a list object
                        if u.op == 'olist' and len(u.a[0]) == 1 and u.a[0][0].op == 'spread':
                            x = u.a[0][0].a[0]
                            if x.op == 'slice' and x.a[0] is mk('tuple', (phi,)) and is_int(x.a[1]) and cv(x.a[1]) == 1 and x.a[2] is NONE:
                                src = mk('tuple', self.frz_segs(s, init.a[0], 0))
                                src = src.a[0][0].a[0] if len(src.a[0]) == 1 and src.a[0][0].op == 'spread' else src
                                cand = mk('olist', (spread(mk('suffix', src, it)),))
                    else:
                        d = sub(u, phi) if (u.op in ('lin', 'phi')) else None
                        if d is not None and is_int(d) and cv(d) != 0:
                            cand = add(init, mul(d, it))
                        elif u.op == 'slice' and u.a[0] is phi and is_int(u.a[1]) and cv(u.a[1]) == 1 and u.a[2] is NONE and u.a[3] is NONE:
                            cand = mk('suffix', self.frz(s, init), it)
                        elif u.op == 'ref' and init.op == 'ref' and s.store.get(init) is not None and s.store[init].op == 'olist':
                            # l = l[1:] makes a new list each time
                            recs = {e.store.get(u) for e in ends}
                            pass
                    if cand is not None and k not in induct:
                        induct[k] = cand
                        heads[k] = cand
                        again = True
                if again:
                    continue
                break
            else:
                self.imprecise.append('loop not stable')
            # rebinding of list variables to new lists (l = l[1:]) as queues
        finally:
            self.loops.pop()
            self.dry -= 1
        # collection of a while loop
        if loop_while:
            C2 = self.while_coll(step.conds, it)
            if C2 is not None:
                C_ = C2
        # final pass, recorded
        h = s.copy()
        h.store.update(heads)
        head = None
        if not self.dry:
            self.loops.append(L)
            head = self.newnode('loop', {'L': L, 'coll': C_}, dict(s.facts), self.where(fr, n))
            self.loops.pop()
            self.link(s.node, head.id, s.facts)
            h.node = head.id
            self.loop_coll[L] = C_
        if not loop_while:
            self.loop_facts(h, C_, it)
        base = h.copy()
        self.loops.append(L)
        if head is not None and not loop_while:
            # a turn that does nothing is a path of its own
            turn = self.newnode('turn', {'L': L}, dict(h.facts), self.where(fr, n))
            self.link(h.node, turn.id, h.facts)
            h.node = turn.id
        self.sinks.append([])
        try:
            outs, exits = step(h)
        finally:
            self.loops.pop()
            raised = self.sinks.pop()
        ends = [o[0] for o in outs if o[1] in ('n', 'c')]
        for e in ends:
            self.same_again(e, base, heads)
        if head is not None:
            for e in ends:
                self.link(e.node, head.id, e.facts)
        if exits is None:
            x = base.copy()
            x.facts = dict(s.facts)
            exits = [x]
        # closed forms
        final = {}
        flags = []
        some = mk('some', C_)

        def newfacts(st):
            return {c: p for c, p in st.facts.items() if c not in base.facts and c is not some}
        for k, hv in heads.items():
            init = s.store[k]
            phi = mk('phi', L, k)
            if k in induct and induct[k] is not None:
                if loop_while:
                    continue
                if hv.op == 'olist':
                    continue
                nlen = length(C_)
                if C_.op == 'range' or True:
                    final[k] = subst(hv, {it: nlen}) if hv.op in ('lin', 'it') else mk('phi', L, k)
                continue
            ups = [(e, e.store.get(k)) for e in ends]
            self.phi.setdefault(phi, (init, set()))[1].update(u for _e, u in ups if u is not None)
            if init.op in ('olist', 'oset'):
                alts = []
                ok = True
                for e, u in ups:
                    if u is None or u.op != init.op or not u.a[0] or u.a[0][0] is not phi:
                        ok = False
                        break
                    rest = u.a[0][1:]
                    if any(has(g, phi) for g in rest):
                        ok = False
                        break
                    alts.append((newfacts(e), rest))
                if ok:
                    g = self.build_many(L, C_, alts)
                    final[k] = mk(init.op, init.a[0] + ((g,) if g is not None else ()))
                continue
            if init.op == 'odict':
                alts = []
                ok = True
                for e, u in ups:
                    if u is None or u.op != 'odict' or u.a[1] is not phi:
                        ok = False
                        break
                    alts.append((newfacts(e), tuple(one(tup(a, b)) for a, b in u.a[0])))
                if ok and not any(has(g, phi) for _f, sg in alts for g in sg):
                    g = self.build_many(L, C_, alts)
                    final[k] = mk('odict', (), mk('dictof', init, g)) if g is not None else init
                continue
            vals = {u for _e, u in ups}
            consts = {u for u in vals if u is not phi}
            if init.op == 'const' and len(consts) == 1 and list(consts)[0].op == 'const':
                flags.append((k, init, list(consts)[0], [newfacts(e) for e, u in ups if u is phi]))
                continue
            if ups and all(u is not None and (u.op == 'str') and u.a[0] and u.a[0][0] is phi for _e, u in ups):
                alts = [(newfacts(e), (one(mkstr(u.a[0][1:])),)) for e, u in ups]
                if not any(has(g, phi) for _f, sg in alts for g in sg):
                    g = self.build_many(L, C_, alts)
                    final[k] = mkstr([init, mk('concat', (g,))])
        common = None
        for e in ends:
            nf = {c: p for c, p in newfacts(e).items() if has(c, it)}
            common = nf if common is None else {c: p for c, p in common.items() if nf.get(c) is p or nf.get(c) == p and c in nf}
        fa = None
        fad = None
        early = [o for o in outs if o[1] not in ('n', 'c')]
        if common:
            fa = self.forall(C_, it, common)
        alts = []
        for e in ends:
            a = {c: p for c, p in newfacts(e).items() if has(c, it)}
            if a not in alts:
                alts.append(a)
        if 1 < len(alts) <= 6 and all(alts):
            bv = binder(*[c for a in alts for c in a])
            fad = mk('foralld', C_, tuple(sorted((tuple(sorted(((subst(c, {it: bv}), p) for c, p in a.items()),
                                                               key=lambda x: (x[0].uid, x[1]))) for a in alts), key=str)), bv)
        res = []
        if not ends and not loop_while and self.known(s, some) is True:
            exits = []      # every turn leaves the loop and there is at least one
        for x in exits:
            for k in base.store:
                if k in final and x.store.get(k) is heads[k]:
                    x.store[k] = final[k]
            # objects and variables first created inside
            seen = {}
            for e in ends:
                for k, v in e.store.items():
                    if k not in base.store:
                        if k not in seen:
                            seen[k] = v
                        elif seen[k] is not v:
                            if isinstance(k, T) or (isinstance(k, tuple) and isinstance(k[0], T) and k[0].op == 'ref'):
                                pass
                            else:
                                seen[k] = mk('phi', L, k)
            for k, v in seen.items():
                if k not in x.store:
                    if isinstance(k, tuple) and isinstance(k[0], T) and k[0].op == 'frame' and isinstance(v, T) and has(v, it):
                        v2 = mk('phi', L, k)
                        self.phi.setdefault(v2, (None, set()))[1].add(v)
                        v = v2
                    x.store[k] = v
            if fa is not None and not loop_while:
                x.facts[fa] = True
            if fad is not None and not loop_while:
                x.facts[fad] = True
            if not ends and not loop_while:
                x.facts[some] = False
            sts = [x]
            for k, init, c, unch in flags:
                nxt = []
                for y in sts:
                    if y.store.get(k) is not heads[k]:
                        nxt.append(y)
                        continue
                    cond = None
                    if unch:
                        cm = None
                        for f in unch:
                            f = {c2: p for c2, p in f.items() if has(c2, it)}
                            cm = f if cm is None else {c2: p for c2, p in cm.items() if c2 in f and f[c2] == p}
                        if cm:
                            cond = self.forall(C_, it, cm)
                        a = y.copy()
                        a.store[k] = init
                        b = y
                        b.store[k] = c
                        if cond is not None:
                            a.facts[cond] = True
                            b.facts[cond] = False
                        b.facts[some] = True
                        nxt += [a, b]
                    else:
                        a = y.copy()
                        a.store[k] = init
                        a.facts[some] = False
                        b = y
                        b.store[k] = c
                        b.facts[some] = True
                        nxt += [a, b]
                sts = nxt
            res += [(y, 'n', None) for y in sts]
        for o in early:
            self.early_fact(o[0], fa, common)
            self.early_alt(o[0], fad, alts)
            res.append(o)
        for st, exc in raised:
            self.early_fact(st, fa, common)
            self.early_alt(st, fad, alts)
            self.raise_(st, exc, fr, n)
        return res

    def loop_facts(self, h, C_, it):
        """what holds for the element a loop is at"""
        h.facts[mk('some', C_)] = True
        same = [C_]
        for f, v in h.facts.items():
            # collections of equal length
            if v and f.op == 'eq' and f.a[0].op == 'len' and f.a[1].op == 'len' and C_ in (f.a[0].a[0], f.a[1].a[0]):
                same.append(f.a[1].a[0] if f.a[0].a[0] is C_ else f.a[0].a[0])
        for f, v in list(h.facts.items()):
            if v and f.op == 'forall' and f.a[0] in same:
                for c, p in f.a[1]:
                    h.facts.setdefault(subst(c, {f.a[2]: it}), p)

    def early_fact(self, st, fa, common):
        if fa is None or len(common) != 1:
            return
        c, p = list(common.items())[0]
        if st.facts.get(c) == (not p):
            st.facts[fa] = False

    def early_alt(self, st, fad, alts):
        if fad is not None and all(any(st.facts.get(c) == (not p) for c, p in a.items()) for a in alts):
            st.facts[fad] = False

    def forall(self, C_, it, facts):
        bv = binder(*facts)
        m = {it: bv}
        fs = tuple(sorted(((subst(c, m), p) for c, p in facts.items()), key=lambda x: (x[0].uid, x[1])))
        return mk('forall', C_, fs, bv)

    def build_many(self, L, C_, alts):
        """alts: [(facts dict, segs)]; merges alternatives with equal results"""
        by = {}
        order = []
        for f, sg in alts:
            if sg not in by:
                by[sg] = []
                order.append(sg)
            by[sg].append(f)
        if not order:
            return None
        if len(order) == 1:
            return many(L, C_, (((), order[0]),))
        out = []
        for sg in order:
            fs = by[sg]
            cm = dict(fs[0])
            for f in fs[1:]:
                cm = {c: p for c, p in cm.items() if c in f and f[c] == p}
            out.append((tuple(sorted(cm.items(), key=lambda x: x[0].uid)), sg))
        return many(L, C_, tuple(out))

    def while_coll(self, conds, it):
        if len(conds) != 1:
            return None
        r = list(conds)[0]
        cands = set()
        for t in walk(r[0]):
            if t.op in ('len', 'param', 'item', 'attr', 'lin', 'phi', 'call', 'const'):
                cands.add(t)
        for t in sorted(cands, key=lambda t: t.op != 'len'):
            try:
                q = self.lt(it, t)
            except Exception:
                continue
            if q == r:
                return t.a[0] if t.op == 'len' else mk('range', C(0), t, C(1))
        return None

    # -------------------------------------------------------------- finite-state loops
    def finite_loop(self, s, fr, n, L, C_, step, loop_while):
        """worklist over distinct head states; counters saturate"""
        seen = {}
        work = [s]
        res = []
        while work:
            h = work.pop()
            self.saturate(h)
            self.drop_iter(h, L)
            key = (frozenset(h.store.items()), frozenset(h.facts.items()))
            if key in seen:
                if not self.dry and seen[key] is not None:
                    self.link(h.node, seen[key], h.facts)
                continue
            hid = None
            if not self.dry:
                hd = self.newnode('loop', {'L': L, 'coll': C_}, dict(h.facts), self.where(fr, n))
                self.link(h.node, hd.id, h.facts)
                h.node = hd.id
                hid = hd.id
            seen[key] = hid
            if len(seen) > 4000:
                raise Limit('finite loop')
            if not loop_while:
                res.append((h.copy(), 'n', None))
            self.loops.append(L)
            try:
                outs, exits = step(h)
            finally:
                self.loops.pop()
            for x in exits or ():
                res.append((x, 'n', None))
            for o in outs:
                if o[1] in ('n', 'c'):
                    work.append(o[0])
                else:
                    res.append(o)
        return res

    def drop_iter(self, h, L):
        it = mk('it', L)
        for c in [c for c in h.facts if has(c, it)]:
            del h.facts[c]
        for c in [c for c in h.facts if c.op == 'some' and c.a[0].op == 'while']:
            del h.facts[c]

    def saturate(self, h):
        m = self.opts.saturate
        for k, v in h.store.items():
            if isinstance(v, T) and v.op == 'const' and v.a[0] == 'int' and isinstance(k, tuple) and isinstance(k[0], T) \
                    and k[0].op in ('frame', 'ref'):
                if cv(v) > m:
                    h.store[k] = mk('big', m)
            elif isinstance(v, T) and v.op == 'lin' and any(u.op == 'big' for u, _c in v.a[1]):
                if len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[0] >= 0:
                    h.store[k] = v.a[1][0][0]
