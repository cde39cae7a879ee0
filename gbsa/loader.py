"""Parses the analysed tree and resolves modules, classes and names."""
import ast
import hashlib
import os


class Broken(Exception):
    """The analysis cannot find something it needs: an error of the check, not a verdict."""


class Module(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.defs = {}      # name -> list of definitions ('func', node) ('class', node) ('import', dotted) ('from', mod, name) ('assign', node, target)
        self.main_guarded = set()
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs.setdefault(n.name, []).append(('func', n))
            elif isinstance(n, ast.ClassDef):
                self.defs.setdefault(n.name, []).append(('class', n))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs.setdefault(a.asname, []).append(('import', a.name))
                    else:
                        self.defs.setdefault(a.name.split('.')[0], []).append(('import', a.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    base = self.name.split('.')
                    is_pkg = os.path.basename(self.path) == '__init__.py'
                    base = base[:len(base) - n.level + (1 if is_pkg else 0)]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in n.names:
                    self.defs.setdefault(a.asname or a.name, []).append(('from', mod, a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(('assign', n, None))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs.setdefault(e.id, []).append(('assign', n, i))
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    self.defs.setdefault(n.target.id, []).append(('assign', n, None))
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    self.defs.setdefault(n.target.id, []).append(('unknown', n))
            elif isinstance(n, ast.If):
                if is_main_guard(n.test):
                    continue
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.orelse)
                self._scan(n.finalbody)
            elif isinstance(n, (ast.With,)):
                self._scan(n.body)
            elif isinstance(n, (ast.For, ast.While)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        self.defs.setdefault(m.id, []).append(('unknown', n))


def is_main_guard(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == '__name__')


class Program(object):
    def __init__(self, root='/repo', extra=()):
        self.root = root
        self.modules = {}
        self.digests = {}
        base = os.path.join(root, 'gb')
        if not os.path.isdir(base):
            raise Broken('no package gb in %s' % root)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self.load(os.path.join(d, f))
        for p in extra:
            self.load(os.path.join(root, p), name='script.' + os.path.basename(p)[:-3])

    def load(self, path, name=None, src=None):
        if src is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
        if name is None:
            rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
            name = rel[:-9] if rel.endswith('.__init__') else rel
        try:
            m = Module(name, path, src)
        except SyntaxError as e:
            raise Broken('cannot parse %s: %s' % (path, e))
        self.modules[name] = m
        self.digests[os.path.relpath(path, self.root) if path.startswith(self.root) else path] = \
            hashlib.sha256(src.encode()).hexdigest()
        return m

    def is_pkg_prefix(self, dotted):
        return dotted in self.modules or any(k.startswith(dotted + '.') for k in self.modules)

    def functions(self):
        """(module, qualname, node, class node or None) of every function of the package."""
        for m in self.modules.values():
            for n, q, c in iter_functions(m.tree):
                yield m, q, n, c


def iter_functions(tree, prefix='', cls=None):
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n, prefix + n.name, cls
            for x in iter_functions(n, prefix + n.name + '.', None):
                yield x
        elif isinstance(n, ast.ClassDef):
            for x in iter_functions(n, prefix + n.name + '.', n):
                yield x
        elif not isinstance(n, ast.expr):
            for x in iter_functions(n, prefix, cls):
                yield x
