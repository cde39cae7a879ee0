"""Sequences of relevant events along every path of an effect graph, loops summarised per turn.

A trace is a tuple of items: a node id, or ('each', L, coll, alternatives) where the alternatives are the
traces one turn of the loop over coll can have (an empty set: the loop has no relevant turn on this path).
"""
from .terms import T
from .interp import Limit

CAP = 14


class Traces(object):
    def __init__(self, a, relevant, start=0, stop=None):
        self.a = a
        self.relevant = relevant
        self._in = {}
        self._m = {}
        self.exits = {}         # exit node id -> set of traces
        self.stops = {}
        self.run(start, stop)

    def inside(self, j, header, outer):
        """node j lies in the loop with this header"""
        key = (j, header, outer)
        r = self._in.get(key)
        if r is None:
            r = j == header or header in self.a.reach([j], lambda n: n.id in outer or n.id == header)
            self._in[key] = r
        return r

    def matters(self, h):
        """some relevant event lies in the loop with this header"""
        r = self._m.get(h)
        if r is None:
            r = any(self.relevant(self.a.nodes[k]) and self.inside(k, h, frozenset())
                    for k in self.a.reach(self.a.nodes[h].succ, lambda n: n.id == h) if k != h)
            self._m[h] = r
        return r

    def run(self, start, stop):
        a = self.a
        work = [(start, (), ())]
        seen = set(work)
        n = 0
        while work:
            i, seq, stack = work.pop()
            nd = a.nodes[i]
            n += 1
            if n > 60000:
                raise Limit('traces')
            if nd.kind == 'exit':
                self.exits.setdefault(i, set()).add(seq)
                continue
            if stop is not None and stop(nd):
                self.stops.setdefault(i, set()).add(seq)
                continue
            if nd.kind == 'loop' and self.matters(i):
                if stack and stack[-1][0] == i:
                    h, alts, turn = stack[-1]
                    if turn is not None:
                        stack = stack[:-1] + ((h, alts | {turn}, None),)
                else:
                    stack = stack + ((i, frozenset(), None),)
            elif self.relevant(nd):
                if stack:
                    h, alts, turn = stack[-1]
                    stack = stack[:-1] + ((h, alts, (turn or ()) + (i,)),)
                    if len(stack[-1][2]) > CAP:
                        raise Limit('trace length')
                else:
                    seq = seq + (i,)
                    if len(seq) > CAP:
                        raise Limit('trace length')
            for j in nd.succ:
                s2, st2 = seq, stack
                while st2:
                    outer = frozenset(e[0] for e in st2[:-1])
                    h, alts, turn = st2[-1]
                    if self.inside(j, h, outer):
                        if i == h and turn is None:
                            st2 = st2[:-1] + ((h, alts, ()),)
                        break
                    # the loop is left, in mid-turn if turn is not None
                    if turn is not None:
                        alts = alts | {turn + ('break',)}
                    ln = a.nodes[h]
                    it = ('each', ln.data['L'], ln.data.get('coll'), alts)
                    st2 = st2[:-1]
                    if st2:
                        h2, al2, tu2 = st2[-1]
                        st2 = st2[:-1] + ((h2, al2, (tu2 or ()) + (it,)),)
                    else:
                        s2 = s2 + (it,)
                x = (j, s2, st2)
                if x not in seen:
                    seen.add(x)
                    work.append(x)

    def flat(self, seq):
        """node ids anywhere in a trace"""
        out = []
        for x in seq:
            if isinstance(x, tuple):
                for al in x[3]:
                    out += self.flat(al)
            elif x != 'break':
                out.append(x)
        return out
