"""Drivers over small concrete structures built in the driver; their results are constants the rules compare with their own specification."""
from ..core import *
from ..terms import *


def drive(prog, rep, src, body, label, unknown=(), **opts):
    """interpret `body` (driver function body) after the module text `src`; the names in `unknown` stand for any strings"""
    unknown = sorted(set(unknown))
    text = src + '\n\ndef drive(%s):\n' % ', '.join(unknown) + ''.join('    assume(isinstance(%s, str))\n' % x for x in unknown)
    text += '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n'
    o = dict(rec_depth=40, frz_depth=40, rec_abort=True, max_steps=400000, max_states=200)
    o.update(opts)
    a = An(prog, text, 'drive', label=label, **o)
    rep.functions |= a.eng.analysed
    return a


def const_of(t):
    """Python value of a term made of constants, or raises ValueError"""
    if is_c(t):
        return cv(t)
    if t.op == 'param':
        return t.a[0]
    if t.op in ('uniq', 'sorted'):
        v = const_of(t.a[0])
        return frozenset(v) if t.op == 'uniq' else v
    if t.op == 'tuple':
        out = []
        for g in t.a[0]:
            if g.op == 'one':
                out.append(const_of(g.a[0]))
            elif g.op == 'spread':
                out += list(const_of(g.a[0]))
            else:
                raise ValueError
        return tuple(out)
    raise ValueError


def outcome(a, rep):
    """('v', value) | ('x', text) | ('r', text) for a recursion without end | None when it is not determined"""
    if a.error and 'recursion of' in a.error:
        return ('r', a.error.split('recursion ')[1])
    if a.imprecise:
        rep.undec('%s: %s' % (a.label, a.imprecise))
        return None
    xs = a.exits()
    if len(xs) != 1:
        rep.undec('%s: %d outcomes' % (a.label, len(xs)))
        return None
    return result(a, rep, xs[0])


def result(a, rep, x):
    if x.data['kind'] == 'raise':
        return ('x', show(x.data['value'])[:80])
    try:
        return ('v', const_of(x.data['value']))
    except ValueError:
        rep.undec('%s: result %s' % (a.label, show(x.data['value'])[:100]))
        return None


def outcomes(a, rep):
    """the same for every path, when the paths differ in what is not known"""
    if a.error or a.imprecise or len(a.exits()) < 2:
        r = outcome(a, rep)
        return [] if r is None else [r]
    return [r for r in (result(a, rep, x) for x in a.exits()) if r is not None]
