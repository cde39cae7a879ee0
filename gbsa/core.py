"""Driver analysis, effect-graph propagation and result bookkeeping shared by the rules."""
import sys
import traceback

from .terms import T, mk, C, is_c, cv, is_int, unstr, walk, has, str_parts, item, show
from .loader import Program, Broken
from .interp import Opts, Limit
from .models import Engine
from . import sqlp

sys.setrecursionlimit(20000)


class Finding(object):
    def __init__(self, rule, construct, msg, where=()):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.where = [w for w in where if w]

    @property
    def key(self):
        return '%s @ %s' % (self.rule, self.construct)

    def line(self):
        return '%s: %s' % (self.key, self.msg)


class Report(object):
    """what one rule run established"""

    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.obligations = 0
        self.counts = {}
        self.undecided = []
        self.functions = set()
        self.samples = []
        self.rules = []

    def ok(self, what, n=1):
        self.obligations += n
        self.counts[what] = self.counts.get(what, 0) + n

    def bad(self, rule, construct, msg, where=()):
        f = Finding(rule, construct, msg, where)
        self.obligations += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.findings.setdefault(f.key, f)

    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def sample(self, s):
        if len(self.samples) < 24 and s not in self.samples:
            self.samples.append(s)


def place(w):
    """readable location of an event: innermost repository frame"""
    for p, l, q in reversed(w or ()):
        if p != '<driver>':
            return '%s:%s' % (short(p), q)
    return 'driver'


def placel(w):
    for p, l, q in reversed(w or ()):
        if p != '<driver>':
            return '%s:%d in %s' % (short(p), l, q)
    return 'driver'


def path_of(w):
    return ['%s:%d %s' % (short(p), l, q) for p, l, q in (w or ()) if p != '<driver>']


def short(p):
    return p.split('/repo/', 1)[-1] if '/repo/' in p else p


class An(object):
    """Abstract interpretation of one driver function."""

    def __init__(self, prog, src, name, label=None, **opts):
        self.prog = prog
        self.label = label or name
        self.eng = Engine(prog, Opts(**opts))
        self.error = None
        try:
            self.outs = self.eng.run(src, name)
        except Limit as e:
            self.outs = []
            self.error = 'budget: %s' % e
        except RecursionError:
            self.outs = []
            self.error = 'recursion'
        except Broken:
            raise
        except Exception as e:      # a construct the interpreter does not model: undecided, never an alarm
            self.outs = []
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.error = 'not modelled: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:80], tb.filename.split('/')[-1], tb.lineno)
        self.nodes = self.eng.nodes
        self._stmt = {}

    @property
    def imprecise(self):
        return self.error or (self.eng.imprecise and 'imprecise: %s' % self.eng.imprecise[0]) or None

    def stmt(self, nd):
        r = self._stmt.get(nd.id)
        if r is None:
            r = sqlp.parse(nd.data['sql'])
            self._stmt[nd.id] = r
        return r

    def bind(self, nd, e):
        return sqlp.bind_of(self.stmt(nd), nd.data, e)

    def by(self, *kinds):
        return [n for n in self.nodes if n.kind in kinds]

    def reach(self, starts, stop=lambda n: False):
        seen = set()
        st = list(starts)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if stop(self.nodes[i]):
                continue
            st.extend(self.nodes[i].succ)
        return seen

    def marks(self, label):
        return [n.id for n in self.nodes if n.kind == 'mark' and n.data.get('label') == label]

    def section(self, a='start', b='end'):
        """ids of nodes on paths after mark a, up to mark b or an exit"""
        starts = []
        for i in self.marks(a):
            starts += list(self.nodes[i].succ)
        return self.reach(starts, lambda n: n.kind == 'mark' and n.data.get('label') == b)

    def flow(self, init, step, filt=None, start=0):
        """Propagates abstract states along the effect graph.

        step(node, state) -> iterable of states after the node;
        filt(state, facts) -> state or None, applied with the facts that hold along an edge.
        Returns {node id: set of states before the node}.
        """
        before = {start: set(init)}
        work = [(start, s) for s in init]
        n = 0
        while work:
            i, s = work.pop()
            nd = self.nodes[i]
            for s2 in step(nd, s):
                for j in nd.succ:
                    fl = self.eng.efacts.get((i, j)) or [{}]
                    res = set()
                    for f in fl:
                        r = filt(s2, f) if filt else s2
                        if r is None:
                            continue
                        if isinstance(r, (set, list)):
                            res.update(r)
                        else:
                            res.add(r)
                    for r in res:
                        b = before.setdefault(j, set())
                        if r not in b:
                            b.add(r)
                            work.append((j, r))
                            n += 1
                            if n > 400000:
                                raise Limit('flow')
        return before

    def exits(self, kind=None):
        return [n for n in self.nodes if n.kind == 'exit' and (kind is None or n.data['kind'] == kind)]


# ------------------------------------------------------------------ term helpers
def base_coll(c):
    """(collection a loop really runs over, exact) - exact: one turn per element, in order"""
    while True:
        if c.op == 'tuple' and len(c.a[0]) == 1:
            g = c.a[0][0]
            if g.op == 'spread':
                c = g.a[0]
                continue
            if g.op == 'many' and len(g.a[2]) == 1 and not g.a[2][0][0] and len(g.a[2][0][1]) == 1 and g.a[2][0][1][0].op == 'one':
                c = g.a[1]
                continue
        if c.op == 'enum':
            c = c.a[0]
            continue
        if c.op in ('reversed', 'sorted'):
            c = c.a[0]
            continue
        if c.op == 'range' and c.a[1].op == 'len' and is_int(c.a[0]) and cv(c.a[0]) == 0 and is_int(c.a[2]) and cv(c.a[2]) == 1:
            c = c.a[1].a[0]
            continue
        if c.op == 'call' and c.a[0] in ('list', 'tuple', 'iter') and len(c.a[1]) == 1:
            c = c.a[1][0]
            continue
        return c


def vague(t):
    """the term contains something the analysis could not follow"""
    return any(x.op in ('unk', 'phi', 'join?', 'ret') or (x.op == 'call' and x.a and x.a[0] == '?') for x in walk(t))


def param(n):
    return mk('param', n)


E2S = 'gb.hypergraph.edge.edge2str'
N2S = 'gb.hypergraph.edge.nodes2str'


def is_call(t, name):
    return t.op == 'call' and (t.a[0] == name or (name == E2S and t.a[0] == 'gb.hypergraph.edge.atom2str'))


def e2s_arg(t):
    """x if t is the text of x, through repeated text conversion of text"""
    t = unstr(t)
    if is_call(t, E2S) and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def is_text(t):
    t = unstr(t)
    return t.op in ('str', 'join') or is_c(t, str) or is_call(t, E2S) or is_call(t, N2S)


def plain(t):
    """edge2str of something that already is text is that text"""
    t = unstr(t)
    while is_call(t, E2S) and len(t.a[1]) == 1 and is_text(t.a[1][0]):
        t = unstr(t.a[1][0])
    return t


def calls_on(a, obj):
    """[(node, method name, args, kwargs)] - calls of methods of an unknown object"""
    out = []
    for nd in a.by('call'):
        f = nd.data['func']
        if f.op in ('m', 'attr') and f.a[0] is obj:
            out.append((nd, f.a[1], nd.data['args'], dict(nd.data['kwargs'])))
    return out


def opaque_storage(fi):
    if fi.mod.name in ('gb.hypergraph.edge', 'gb.hypergraph.symbol'):
        return 'bool' if fi.qual == 'is_edge_collection' else 'pure'
    return None
