"""Parses the package and resolves imports, classes and functions."""
import ast
import importlib
import os

REPO = os.environ.get('VG_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


# standard library modules that may be star-imported, and their names
STDLIB = {}
for _n in ('functools', 'itertools', 'math', 'operator', 'copy', 'os',
           'contextlib', 'collections', 'datetime', 'warnings', 'time'):
    _m = importlib.import_module(_n)
    STDLIB[_n] = set(getattr(_m, '__all__', None) or (
        x for x in vars(_m) if not x.startswith('_')))


class AnalysisError(Exception):
    """The tree cannot be analysed (vanished anchor, parse error)."""


class Func(object):
    def __init__(self, mod, node, qual, cls=None):
        self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            n = d.func if isinstance(d, ast.Call) else d
            if isinstance(n, ast.Attribute):
                self.decorators.append(n.attr)
            elif isinstance(n, ast.Name):
                self.decorators.append(n.id)
        self._gen = None

    @property
    def name(self):
        return self.node.name if hasattr(self.node, 'name') else '<lambda>'

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                            for x in own_nodes(self.node))
        return self._gen

    def where(self, node=None):
        return '%s:%d (%s)' % (self.mod.rel, (node or self.node).lineno,
                               self.qual)

    def __repr__(self):
        return '<Func %s.%s>' % (self.mod.name, self.qual)


def own_nodes(fnode):
    """Nodes of a function excluding nested function/class bodies."""
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Class(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.assigns = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(mod, s, node.name + '.' + s.name,
                                            self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
        self._mro = None

    def __repr__(self):
        return '<Class %s>' % self.name


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, REPO)
        with open(path) as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (path, e))
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.stars = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(self, s, s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = None
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = \
                            ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._absolute(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.If):
                self._collect(s.body)
                self._collect(s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)
            elif isinstance(s, ast.With):
                self._collect(s.body)

    def _absolute(self, s):
        if not s.level:
            return s.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[:-(s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    @property
    def all(self):
        v = self.assigns.get('__all__')
        if v is not None:
            try:
                return list(ast.literal_eval(v))
            except Exception:
                return None
        return None


class Program(object):
    def __init__(self, src=SRC):
        self.modules = {}
        root = os.path.join(src, 'cdtools')
        if not os.path.isdir(root):
            raise AnalysisError('package directory %s is missing' % root)
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                self.modules[rel] = Module(rel, p)

    # ---- name resolution -------------------------------------------------
    def lookup(self, modname, name, _seen=None):
        """Resolve a global name: ('func',F) ('class',C) ('module',M)
        ('ext',dotted) ('assign',Module,astnode) or None."""
        _seen = _seen or set()
        if (modname, name) in _seen:
            return None
        _seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return None
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.classes:
            return ('class', m.classes[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return ('module', self.modules[imp[1]])
                return ('ext', imp[1])
            base, nm = imp[1], imp[2]
            if base in self.modules:
                r = self.lookup(base, nm, _seen)
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return ('module', self.modules[base + '.' + nm])
                return None
            return ('ext', base + '.' + nm)
        if name in m.assigns:
            return ('assign', m, m.assigns[name], name)
        for base in m.stars:
            if base in STDLIB and name in STDLIB[base]:
                return ('ext', base + '.' + name)
            if base in self.modules:
                pub = self.modules[base].all
                if pub is not None and name not in pub:
                    continue
                if pub is None and name.startswith('_'):
                    continue
                r = self.lookup(base, name, _seen)
                if r is not None:
                    return r
        if m.is_pkg and modname + '.' + name in self.modules:
            return ('module', self.modules[modname + '.' + name])
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self._expr(cls.mod, b)
            out.append(r)
        return out

    def _expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.lookup(mod.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self._expr(mod, e.value)
            if b is None:
                return None
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'module':
                return self.lookup(b[1].name, e.attr)
        return None

    def mro(self, cls):
        """Linearised repo classes (single inheritance in practice) plus the
        dotted names of external bases."""
        if cls._mro is None:
            seq, ext = [cls], []
            for b in self.bases(cls):
                if b is None:
                    continue
                if b[0] == 'class':
                    s, e = self.mro(b[1])
                    seq += [x for x in s if x not in seq]
                    ext += e
                elif b[0] == 'ext':
                    ext.append(b[1])
            cls._mro = (seq, ext)
        return cls._mro

    def find_method(self, cls, name, after=None):
        seq, _ = self.mro(cls)
        if after is not None and after in seq:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_classattr(self, cls, name):
        for c in self.mro(cls)[0]:
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def subclasses(self, cls):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not cls and cls in self.mro(c)[0]:
                    out.append(c)
        return out

    def cls(self, modname, name):
        r = self.lookup(modname, name)
        if not r or r[0] != 'class':
            raise AnalysisError('class %s.%s not found' % (modname, name))
        return r[1]

    def func(self, modname, name):
        r = self.lookup(modname, name)
        if not r or r[0] != 'func':
            raise AnalysisError('function %s.%s not found' % (modname, name))
        return r[1]

    def all_functions(self):
        """Every function, method and nested function of the package."""
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
