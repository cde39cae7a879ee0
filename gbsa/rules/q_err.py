"""Q03: no guaranteed internal errors: names, imports, attributes, arguments and operand kinds over every function of the package."""
import ast
import builtins
import symtable

from .storage import *
from ..loader import iter_functions, is_main_guard
from ..core import short

SPECIAL = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__class__', '__module__',
           '__qualname__', '__annotations__', 'WindowsError', 'unicode', 'xrange', 'raw_input', 'basestring', 'long', 'reduce'}


def guarded(tree):
    """names used under a handler of NameError, or in a module with star imports (None)"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            return None
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ('NameError', 'Exception', 'BaseException')
                                                                for x in ast.walk(h.type)) for h in n.handlers):
            for st in n.body:
                out |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
    return out


def names_rule(prog, rep):
    for m in prog.modules.values():
        if m.name == 'driver':
            continue
        skip = guarded(m.tree)
        if skip is None:
            rep.undec('%s imports *' % m.name)
            continue
        top = symtable.symtable(m.src, m.path, 'exec')
        have = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                have |= set(n.names)
        have |= set(dir(builtins)) | SPECIAL | skip
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, n.lineno)

        def go(t, where):
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() or t is top and s.is_referenced():
                    if s.get_name() not in have and not s.is_imported() and not s.is_assigned():
                        rep.bad('undefined name', '%s:%s: %s' % (short(m.path), where, s.get_name()), 'the name is defined nowhere (line %d)' % lines.get(s.get_name(), 0))
                    else:
                        rep.ok('names resolved')
            for c in t.get_children():
                go(c, c.get_name() if where == '<module>' else where + '.' + c.get_name())
        go(top, '<module>')


def imports_rule(prog, rep):
    """names imported from a module of the package exist there; attributes read from a module of the package exist"""
    for m in prog.modules.values():
        if m.name == 'driver':
            continue
        soft = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.handlers:
                for st in n.body:
                    soft |= {id(x) for x in ast.walk(st)}
        mods = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == 'gb':
                        if not prog.is_pkg_prefix(a.name):
                            if id(n) not in soft:
                                rep.bad('module does not exist', '%s: import %s' % (short(m.path), a.name), 'line %d' % n.lineno)
                        else:
                            rep.ok('imports')
                        if a.asname:
                            mods[a.asname] = a.name
            elif isinstance(n, ast.ImportFrom) and not n.level and (n.module or '').split('.')[0] == 'gb':
                src = prog.modules.get(n.module)
                for a in n.names:
                    if a.name == '*' or prog.is_pkg_prefix(n.module + '.' + a.name):
                        rep.ok('imports')
                        if a.name != '*':
                            mods[a.asname or a.name] = n.module + '.' + a.name
                        continue
                    if src is None and not prog.is_pkg_prefix(n.module):
                        if id(n) not in soft:
                            rep.bad('module does not exist', '%s: from %s' % (short(m.path), n.module), 'line %d' % n.lineno)
                    elif src is not None and a.name not in toplevel(src):
                        if id(n) not in soft:
                            rep.bad('imported name does not exist', '%s: %s of %s' % (short(m.path), a.name, n.module), 'line %d' % n.lineno)
                    else:
                        rep.ok('imports')
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in mods and isinstance(n.ctx, ast.Load):
                if rebound(m.tree, n.value.id):
                    continue
                src = prog.modules.get(mods[n.value.id])
                if src is None:
                    continue
                if n.attr in toplevel(src) or prog.is_pkg_prefix(src.name + '.' + n.attr) or n.attr.startswith('__'):
                    rep.ok('module attributes')
                elif id(n) not in soft:
                    rep.bad('module attribute does not exist', '%s: %s.%s' % (short(m.path), n.value.id, n.attr), 'line %d' % n.lineno)


BUILTIN_ATTRS = set()
for _t in (str, bytes, list, dict, set, frozenset, tuple, int, float, bool, object, type, range, slice, BaseException, OSError, StopIteration,
           UnicodeDecodeError, property, type(lambda: 0), type(x for x in ()), type(open(__file__)), type(None), memoryview, complex, staticmethod):
    BUILTIN_ATTRS |= set(dir(_t))


def attributes_rule(prog, rep):
    """modules that only deal with objects of the package: every attribute they read is one some class of the package or of the language has,
    and a method only classes of the package have is called with arguments one of them accepts"""
    have, methods = set(BUILTIN_ATTRS), {}
    dynamic = False
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                have.add(n.attr)
                methods[n.attr] = None
            elif isinstance(n, ast.ClassDef):
                for b in n.bases:
                    d = ast.unparse(b)
                    if d.split('.')[-1] in ('namedtuple', 'Enum', 'IntEnum', 'NamedTuple') or isinstance(b, ast.Call):
                        dynamic = True
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        have.add(x.name)
                        plainm = not x.decorator_list or all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in x.decorator_list)
                        if x.name not in methods or methods[x.name] is not None:
                            if plainm:
                                methods.setdefault(x.name, []).append((x, any(d.id == 'staticmethod' for d in x.decorator_list)))
                            else:
                                methods[x.name] = None
                    else:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                have.add(y.id)
                                methods[y.id] = None
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'namedtuple', 'type', '__import__'):
                dynamic = dynamic or n.func.id != 'type' or len(n.args) == 3
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'namedtuple', 'import_module') \
                    and (n.func.attr != 'update' or isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '__dict__'):
                dynamic = True
            if isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__'):
                dynamic = True
    if dynamic:
        rep.undec('attributes are made at run time')
        return
    imp, foreign = {}, set()
    for m in prog.modules.values():
        imp[m.name] = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imp[m.name].add(a.name)
            elif isinstance(n, ast.ImportFrom) and not n.level:
                imp[m.name] |= {n.module} | {'%s.%s' % (n.module, a.name) for a in n.names}
        if any(x.split('.')[0] not in PLAIN and x.split('.')[0] != 'gb' for x in imp[m.name]):
            foreign.add(m.name)
    # what a module with foreign objects imports may be handed such objects
    foreign |= {x for m in foreign for x in imp[m]}
    for m in prog.modules.values():
        if m.name == 'driver' or m.name in foreign:
            continue
        mods = set()
        classes = {n.name for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                mods |= {(a.asname or a.name).split('.')[0] for a in n.names}
        called = {id(n.func): n for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                continue
            root = n
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id in mods:
                continue
            if n.attr not in have:
                rep.bad('attribute no class has', '%s: %s' % (short(m.path), n.attr), 'no class of the package or of the language has it (line %d)' % n.lineno)
                continue
            rep.ok('attributes known')
            c = called.get(id(n))
            if c is None or n.attr in BUILTIN_ATTRS or not methods.get(n.attr):
                continue
            if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                continue
            if any(accepts(f, len(c.args) + (0 if st else extra), [k.arg for k in c.keywords]) for f, st in methods[n.attr]
                   for extra in ((1, 0) if isinstance(n.value, ast.Name) and (n.value.id in classes or n.value.id == 'cls') else (1,))):
                rep.ok('calls accepted')
            else:
                rep.bad('unacceptable arguments', '%s: %s' % (short(m.path), n.attr), 'no method of this name accepts the %d arguments given (line %d)' % (
                    len(c.args) + len(c.keywords), n.lineno))


PLAIN = {'__future__', 'json', 're', 'sys', 'os', 'math', 'itertools', 'collections', 'functools', 'operator', 'random', 'string', 'time', 'copy'}


def accepts(f, n, kws):
    a = f.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    if n > len(pos) and not a.vararg:
        return False
    names = pos + [p.arg for p in a.kwonlyargs]
    if not a.kwarg and any(k not in names or k in pos[:n] for k in kws):
        return False
    need = pos[:len(pos) - len(a.defaults)]
    if any(p not in kws for p in need[n:]):
        return False
    return all(d is not None or p.arg in kws for p, d in zip(a.kwonlyargs, a.kw_defaults))


def toplevel(m):
    if not hasattr(m, '_top'):
        t = symtable.symtable(m.src, m.path, 'exec')
        m._top = {s.get_name() for s in t.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()} | set(m.defs)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m._top |= set(n.names)
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) or isinstance(n, ast.FunctionDef) and n.name == '__getattr__':
                m._top = Everything()
                break
    return m._top


class Everything(object):
    def __contains__(self, x):
        return True


def rebound(tree, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(n, ast.arg) and n.arg == name
               for n in ast.walk(tree))


def q03(prog, rep, tier):
    rep.rules.append('every name a function uses is defined in an enclosing scope, the module or the language; every import and attribute of a module of '
                     'the package exists; on the paths followed from every function with unknown arguments no call has unacceptable arguments, no attribute '
                     'no object of the class can have is read, and no operation is applied to a kind of value that never supports it')
    names_rule(prog, rep)
    imports_rule(prog, rep)
    attributes_rule(prog, rep)
    seen = {}
    for m in list(prog.modules.values()):
        if m.name == 'driver' or m.name.startswith('script.'):
            continue
        for node, q, cls in iter_functions(m.tree):
            parts = q.split('.')
            if len(parts) > (2 if cls is not None else 1):
                continue
            if cls is not None and parts[0] != cls.name:
                continue
            label = '%s.%s' % (m.name, q)
            a = probe(prog, m, node, q, cls, label, 20000)
            alone = bool(a.imprecise)
            if alone:
                # what the called functions do to the objects at hand is left out: only errors that do not depend on it count
                a = probe(prog, m, node, q, cls, label, 60000, True)
            rep.functions |= a.eng.analysed
            if a.imprecise:
                rep.undec('%s: %s' % (label, a.imprecise))
            for key, line in a.eng.diags.items():
                if alone and not (key[2] in ('args', 'import', 'name') or key[2] == 'attribute' and key[3].split(' ')[0] not in KINDS):
                    continue
                if key[2] not in ('import', 'name') and a.eng.failed[key].keys() <= a.eng.passed:
                    continue        # it works for some of the values it can have
                seen.setdefault(key, line)
            rep.ok('functions followed')
    for (path, qual, code, msg), line in sorted(seen.items()):
        if path.startswith('<'):
            continue
        rep.bad(TITLES.get(code, code), '%s:%s: %s' % (short(path), qual, msg), 'line %d' % line, ())


KINDS = ('str', 'int', 'tuple', 'bool', 'float', 'list', 'dict', 'set', 'func', 'NoneType')
TITLES = {'type': 'operation on the wrong kind of value', 'attribute': 'attribute that cannot exist', 'call': 'call that cannot work',
          'args': 'unacceptable arguments', 'import': 'imported name does not exist', 'name': 'undefined name'}


def probe(prog, m, node, q, cls, label, steps, alone=False):
    a = node.args
    params = [p.arg for p in a.posonlyargs + a.args]
    kwonly = [p.arg for p in a.kwonlyargs]
    static = any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in node.decorator_list)
    isprop = any(isinstance(d, ast.Name) and d.id == 'property' or isinstance(d, ast.Attribute) for d in node.decorator_list)
    lines = ['import %s as target' % m.name]
    if cls is not None and not static:
        selfn, params = params[0] if params else 'self', params[1:]
        ps = params + kwonly
        body = ["o = obj('%s:%s', 'self')" % (m.name, cls.name)]
        if isprop and not params:
            body.append('return o.%s' % node.name)
        elif isprop:
            body.append('o.%s = %s' % (node.name, params[0]))
        else:
            body.append('return o.%s(%s)' % (unmangled(node.name), ', '.join(params + ['%s=%s' % (k, k) for k in kwonly])))
    else:
        ps = params + kwonly
        body = ['return target.%s(%s)' % (q, ', '.join(params + ['%s=%s' % (k, k) for k in kwonly]))]
    if cls is not None and node.name.startswith('__') and not node.name.endswith('__'):
        body[-1] = body[-1].replace('o.' + node.name, 'o._%s%s' % (cls.name.lstrip('_'), node.name))
    ren = {p: 'p_' + p for p in ps}
    src = '\n'.join(lines) + '\n\n\ndef drive(%s):\n' % ', '.join(ps) + '\n'.join('    ' + l for l in body) + '\n'
    return An(prog, src, 'drive', label=label, max_states=24, max_steps=steps, opaque=only(m, q) if alone else lambda fi: None)


def only(m, q):
    done = []

    def f(fi):
        if fi.mod.name == m.name and fi.qual.startswith(q + '.'):
            return None
        if fi.mod.name == m.name and fi.qual == q and not done:
            done.append(1)
            return None
        return 'pure'
    return f


def unmangled(n):
    return n
