"""D01: the dump filter analysed on symbolic dumps (lines of every kind, their letters known by class only)."""
import ast
import itertools

from .storage import *
from ..loader import is_main_guard
from .. import chars

SCRIPT = 'script.filter_wikidump'
L, D, P = (lambda i=0: chars.sent('letter', i)), (lambda i=0: chars.sent('digit', i)), (lambda i=0: chars.sent('low', i))

# lines of a dump by kind; several spellings of each
OUT = ['<mediawiki xml:lang="en">\n', '    <namespace key="%s">%s</namespace>\n' % (D(), L()), '%s: %s\n' % (L(1), L(2)), '\n', '  </siteinfo>\n', '</mediawiki>']
PAGE = ['  <page>\n', '<page>\n']
PRE = ['    <ns>%s</ns>\n' % D(1), '    <x>%s: %s</x>\n' % (L(3), L(4))]
KEPT = ['    <title>%s %s</title>\n' % (L(5), L(6)), '    <title>%s</title>\n' % L(7), '<title>%s;%s/(%s)</title>\n' % (L(5), D(2), P())]
DROPPED = ['    <title>%s:%s</title>\n' % (L(5), L(6)), '    <title>%s:</title>\n' % L(5), '    <title>:%s</title>\n' % L(6),
           '    <title>%s %s: %s/%s</title>\n' % (L(5), L(1), L(2), L(3)), '<title>%s:%s:%s</title>\n' % (L(5), L(6), L(7))]
BODY = ['    <redirect title="%s:%s" />\n' % (L(1), L(6)), '    <id>%s</id>\n' % D(3), '%s %s\n' % (L(2), L(5)), '      <text>%s\n' % L(4), '\n',
        '    </revision>\n']
CLOSE = ['  </page>\n', '</page>\n']


def entry(prog):
    """source text of what the script runs when started"""
    m = prog.modules.get(SCRIPT)
    if m is None:
        return None
    for n in m.tree.body:
        if isinstance(n, ast.If) and is_main_guard(n.test):
            names = sorted(k for k in m.defs if k.isidentifier())
            return 'from %s import %s\n\n\ndef drive():\n%s\n' % (
                SCRIPT, ', '.join(names), '\n'.join('    ' + l for st in n.body for l in ast.unparse(st).split('\n')))
    return None


def paths(a, cap=64):
    """event sequences from the entry to an exit"""
    out = []
    todo = [(a.eng.entry.id, ())]
    while todo:
        i, seq = todo.pop()
        n = a.nodes[i]
        if n.kind not in ('entry', 'join'):
            seq += (i,)
        if n.kind == 'exit':
            out.append(seq)
            if len(out) > cap:
                return None
            continue
        if n.kind == 'loop':
            return None
        todo += [(j, seq) for j in n.succ]
    return out


def written(a, seq):
    """text written to the standard output along the path, or None"""
    out = []
    for i in seq:
        n = a.nodes[i]
        if n.kind != 'call':
            continue
        f = n.data['func']
        name = f.a[0] if f.op == 'ext' else f.a[0].a[0] + '.' + f.a[1] if f.op == 'm' and f.a[0].op == 'ext' else None
        args, kw = n.data['args'], dict(n.data['kwargs'])
        if name == 'sys.stdout.write' and len(args) == 1:
            vals, end = [args[0]], ''
        elif name == 'sys.stdout.writelines' and len(args) == 1 and args[0].op == 'tuple' and all(g.op == 'one' for g in args[0].a[0]):
            vals, end = [g.a[0] for g in args[0].a[0]], ''
        elif name == 'print' and set(kw) <= {'end', 'sep', 'flush'}:
            vals, end = list(args), kw.get('end', C('\n'))
            if not is_c(end, str) or len(vals) > 1:
                return None
            end = cv(end)
        elif name in ('sys.stdout.flush',):
            continue
        elif name is None or name.startswith('sys.std') or name.startswith('os.write'):
            return None
        else:
            continue
        for v in vals:
            if not is_c(v, str):
                return None
            out.append(cv(v))
        out.append(end)
    return ''.join(out)


def dumps(n):
    """[(lines, expected output)] of well-formed dumps: every shape up to n lines, spellings in rotation, and every spelling once"""
    rot = {}

    def pick(kind):
        k = id(kind)
        rot[k] = rot.get(k, -1) + 1
        return kind[rot[k] % len(kind)]
    seen = set()
    # a shape: kinds of lines of a well-formed dump
    def shapes(left, state):
        yield ()
        if not left:
            return
        if state == 'out':
            for k, st in (('o', 'out'), ('P', 'pre')):
                for r in shapes(left - 1, st):
                    yield (k,) + r
        elif state == 'pre':
            for k, st in (('i', 'pre'), ('K', 'body'), ('X', 'body')):
                for r in shapes(left - 1, st):
                    yield (k,) + r
        else:
            for k, st in (('b', 'body'), ('C', 'out')):
                for r in shapes(left - 1, st):
                    yield (k,) + r

    def complete(sh):
        st = 'out'
        for k in sh:
            st = {'P': 'pre', 'K': 'body', 'X': 'body', 'C': 'out'}.get(k, st)
        return st == 'out'
    kinds = {'o': OUT, 'P': PAGE, 'i': PRE, 'K': KEPT, 'X': DROPPED, 'b': BODY, 'C': CLOSE}
    for sh in shapes(n, 'out'):
        if not complete(sh) or sh in seen:
            continue
        seen.add(sh)
        yield expected([(k, pick(kinds[k])) for k in sh])
    for title in [('K', t) for t in KEPT] + [('X', t) for t in DROPPED]:
        for o, p, i, b, c in zip(itertools.cycle(OUT), itertools.cycle(PAGE), itertools.cycle(PRE), BODY, itertools.cycle(CLOSE)):
            yield expected([('o', o), ('P', p), ('i', i), title, ('b', b), ('C', c), ('P', p), ('K', KEPT[0]), ('C', c), ('o', o)])
    yield from odd()


# unusual spellings
ODD = {
    'o': ['%s  \n' % L(1), '\t%s\t\n' % L(2), '   \n', '%s\n' % (L(3) * 400), '  &lt;page&gt;\n', '%s\x0c%s\x85%s\u2028%s\n' % (L(1), L(2), L(3), L(4)), '  <pages>%s</pages>\n' % D(),
          '<?xml version="1.0"?>\n', '%s' % L(4)],
    'P': ['\t<page>\n', '  <page>  \n', '\t\t <page>\n'],
    'i': ['    <ns>%s</ns>  \n' % D(1), '\n', '    <x>%s</x>\n' % (L(4) * 300), '    <titles>%s:%s</titles>\n' % (L(1), L(2)), '  &lt;title&gt;%s:%s&lt;/title&gt;\n' % (L(1), L(2))],
    'K': ['    <title></title>\n', '    <title>%s</title>\n' % (L(5) * 255), '\t<title>%s</title>\n' % L(5), '    <title> %s </title>  \n' % L(5), '    <title>%s\uff1a%s</title>\n' % (L(5), L(6)),
          '    <title>%s</title>\n' % D(1), '    <title>%s</title>\n' % P(), '    <title>%s - %s; %s, &quot;%s&quot; %s/%s</title>\n' % (L(1), L(2), L(3), L(4), L(5), L(6))],
    'X': ['    <title>%s:%s</title>\n' % (L(5) * 250, L(6)), '    <title>%s %s:</title>\n' % (L(5) * 40, L(6) * 60), '    <title>:</title>\n', '\t<title>%s:%s</title>\n' % (L(5), L(6)),
          '    <title> %s : %s </title>  \n' % (L(5), L(6)), '    <title>%s::%s</title>\n' % (L(5), L(6)), '    <title>%s:%s</title>\n' % (D(1), D(2)), '    <title>%s: %s</title>\n' % (P(), P()),
          '    <title>::%s</title>\n' % L(1), '    <title>%s %s %s: %s</title>\n' % (L(1), L(2), L(3), L(4))],
    'b': ['%s  \n' % L(1), '\t%s\t\n' % L(2), '   \n', '%s\n' % (L(3) * 400), '&lt;/page&gt;\n', '&lt;page&gt;\n', '%s\x0c%s\x85%s\u2028%s\n' % (L(1), L(2), L(3), L(4)), '      <comment>%s:%s</comment>\n' % (L(1), L(2)),
          '%s %s:%s]]</text>\n' % (L(1), L(2), L(3)), '&lt;title&gt;%s:%s&lt;/title&gt;\n' % (L(1), L(2)), '      <sha1 />\n'],
    'C': ['\t</page>\n', '  </page>  \n'],
}


def odd():
    plain = {'o': OUT[2], 'P': PAGE[0], 'i': PRE[0], 'K': KEPT[0], 'X': DROPPED[0], 'b': BODY[2], 'C': CLOSE[0]}
    for k in 'oPiKXbC':
        for l in ODD[k]:
            for t in (k,) if k in 'KX' else ('K', 'X'):
                page = ['P', 'i', t, 'b', 'C']
                yield expected([(x, l if x == k else plain[x]) for x in ('o',) * l.endswith('\n') + tuple(page) + ('P', 'K', 'C', 'o')])
    # long dumps: many pages, and pages of many lines
    for t in 'KX':
        for n in (40, 300):
            o = [('o', plain['o'])]
            yield expected(o + [('P', plain['P'])] + [('i', '    <x>%s %d</x>\n' % (L(3) * 40, j)) for j in range(n)] + [(t, plain[t]), ('b', plain['b']), ('C', plain['C'])] + o)
            yield expected(o + [('P', plain['P']), (t, plain[t])] + [('b', '%s %d\n' % (L(4) * 40, j)) for j in range(n)] + [('C', plain['C'])] + o)
    for pat in ('KX', 'XK', 'XXK', 'KKX', 'X', 'K'):
        ls = []
        for j in range(42):
            t = pat[j % len(pat)]
            ls += [('P', PAGE[j % 2]), (t, (KEPT if t == 'K' else DROPPED)[j % 3]), ('b', '%s %d\n' % (L(1), j)), ('C', CLOSE[j % 2])]
        yield expected(ls + [('o', '</mediawiki>')])
    # the same page twice, the same lines in a kept page and in a dropped one
    for a, b in itertools.product('KX', repeat=2):
        page = [('P', plain['P']), ('i', plain['i']), (a, plain[a]), ('b', plain['b']), ('b', plain['b']), ('C', plain['C'])]
        yield expected(page + page + [('P', plain['P']), ('i', plain['i']), (b, plain[b]), ('b', plain['b']), ('C', plain['C'])] + [('o', plain['o'])] * 3)


def expected(lines):
    out, pend, keep = [], None, True
    for k, l in lines:
        if k == 'P':
            pend = [l]
            continue
        if k == 'K':
            out += pend + [l]
            pend = None
        elif k == 'X':
            pend, keep = None, False
        elif pend is not None:
            pend.append(l)
        elif k == 'C':
            if keep:
                out.append(l)
            keep = True
        elif keep:
            out.append(l)
    return ''.join(k for k, _l in lines), tuple(l for _k, l in lines), ''.join(out)


NAMES = {'o': 'outside line', 'P': 'page tag', 'i': 'line before the title', 'K': 'title without colon', 'X': 'title with colon', 'b': 'page line',
         'C': 'closing tag'}


def read_ok(a, rep, seen):
    """the file is read without losing or replacing characters"""
    for n in a.by('fopen'):
        if n.where in seen:
            continue
        seen.add(n.where)
        kw = dict(n.data['kwargs'])
        args = list(n.data['args'])
        enc = kw.get('encoding', args[3] if len(args) > 3 else None)
        err = kw.get('errors', args[4] if len(args) > 4 else None)
        if err is not None and is_c(err, str) and cv(err) not in ('strict', 'surrogateescape'):
            rep.bad('characters of the lines', 'filter_wikidump', 'a line with characters that cannot be decoded is changed (errors=%r)' % cv(err), path_of(n.where))
        elif enc is not None and is_c(enc, str) and cv(enc).lower().replace('_', '-') not in ('utf-8', 'utf8'):
            rep.bad('characters of the lines', 'filter_wikidump', 'the dump, which is UTF-8, is read as %s' % cv(enc), path_of(n.where))
        else:
            rep.ok('files opened')


def d01(prog, rep, tier):
    rep.rules.append('for every well-formed order of line kinds up to the bound (outside lines, page tag, lines before the title, title with or without '
                     'colon, page lines, closing tag), lines being known by the classes of their characters: what the script writes is exactly the '
                     'concatenation of the outside lines and the lines of pages whose title has no colon')
    prog = Program(prog.root, extra=['python/filter_wikidump.py'])
    src = entry(prog)
    if src is None:
        rep.undec('filter_wikidump has no entry')
        return
    bad = 0
    seen_open = set()
    for shape, lines, want in dumps(8 if tier == 'quick' else 10):
        a = An(prog, src, 'drive', label='filter of %s' % shape, lines=lines, unroll=2000, extvals={'sys.argv': tup(C('filter_wikidump.py'), C('dump.xml'))})
        rep.functions |= a.eng.analysed
        text = ', '.join(NAMES[k] for k in shape) or 'an empty file'
        if a.imprecise:
            rep.undec('%s: %s' % (a.label, a.imprecise))
            continue
        ps = paths(a)
        if not ps:
            rep.undec('%s: %s' % (a.label, 'no path' if ps is not None else 'paths'))
            continue
        for seq in ps:
            x = a.nodes[seq[-1]]
            if x.data['kind'] == 'raise':
                if x.data['value'].a[0] == 'SystemExit':
                    continue
                rep.bad('filter fails', 'filter_wikidump', 'on a dump with the lines %s it raises %s' % (text, show(x.data['value'])[:60]))
                continue
            got = written(a, seq)
            if got is None or len(ps) > 1 and got != want:
                rep.undec('%s: output' % a.label)
            elif got == want:
                rep.ok('dumps filtered')
                read_ok(a, rep, seen_open)
            else:
                bad += 1
                where = [a.nodes[i] for i in seq if a.nodes[i].kind == 'call']
                rep.bad('lines written', 'filter_wikidump', 'of a dump with the lines %s it writes %r instead of %r' % (
                    text, chars.show(got)[:300], chars.show(want)[:300]), path_of(where[-1].where) if where else ())
