"""Loads the repository's Python package as a resolved program: modules, imports, functions, classes, MROs.

Nothing is imported or executed: only `ast` is used.
"""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'DRecPy'


class AnchorMissing(Exception):
    """A public construct the property is about no longer exists."""


class Func:
    def __init__(self, mod, node, qual, cls=None):
        self.mod, self.node, self.qual, self.cls = mod, node, qual, cls
        self.name = getattr(node, 'name', '<lambda>')
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in getattr(node, 'decorator_list', [])]
        self.static = 'staticmethod' in decs
        self.classm = 'classmethod' in decs
        self.prop = 'property' in decs
        self.abstract = 'abstractmethod' in decs
        self.is_gen = _has_yield(node)

    @property
    def file(self):
        return self.mod.relpath

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<F %s>' % self.qual


def _has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, mod, node, qual, prog):
        self.mod, self.node, self.qual, self.prog = mod, node, qual, prog
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(mod, s, qual + '.' + s.name, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    def mro(self):
        out = [self]
        for b in self.node.bases:
            c = self.prog.resolve_class_expr(self.mod, b)
            if c is not None:
                for x in c.mro():
                    if x not in out:
                        out.append(x)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return '<C %s>' % self.qual


class Module:
    def __init__(self, name, path, prog, source):
        self.name, self.path, self.prog = name, path, prog
        self.relpath = os.path.relpath(path, prog.root)
        self.source = source
        self.tree = ast.parse(source, filename=path)
        self.is_pkg = path.endswith('__init__.py')
        self.imports = {}    # local name -> ('mod', modname) | ('from', modname, name)
        self.funcs, self.classes, self.globals = {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(self, s, self.name + '.' + s.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s, self.name + '.' + s.name, self.prog)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, v in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                self.globals[x.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(getattr(s, 'orelse', []))


class Program:
    def __init__(self, root=None, overrides=None):
        self.root = root or REPO
        self.modules = {}
        overrides = overrides or {}
        pk = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(pk):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                src = overrides.get(rel)
                if src is None:
                    with open(p, encoding='utf8') as fh:
                        src = fh.read()
                self.modules[name] = Module(name, p, self, src)

    def with_spec(self):
        """The same program plus the reference definitions of /verif/sa/spec (as package SPEC)."""
        if getattr(self, '_spec', None) is None:
            p = Program.__new__(Program)
            p.root = self.root
            p.modules = dict(self.modules)
            d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec')
            for f in sorted(os.listdir(d)):
                if f.endswith('.py') and f != '__init__.py':
                    with open(os.path.join(d, f), encoding='utf8') as fh:
                        src = fh.read()
                    m = Module('SPEC.' + f[:-3], os.path.join(d, f), p, src)
                    p.modules[m.name] = m
            self._spec = p
        return self._spec

    # ---- name resolution --------------------------------------------------------------------------------------
    def resolve(self, mod, name, seen=None):
        """-> ('func',Func)|('class',Cls)|('glob',Module,name)|('module',Module)|('ext',dotted)|None"""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen.add((mod.name, name))
        if name in mod.funcs:
            return ('func', mod.funcs[name])
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.globals:
            v = mod.globals[name]
            if isinstance(v, ast.Name):   # alias
                r = self.resolve(mod, v.id, seen)
                if r and r[0] in ('func', 'class'):
                    return r
            return ('glob', mod, name)
        if name in mod.imports:
            imp = mod.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return ('module', self.modules[imp[1]])
                return ('ext', imp[1])
            base, nm = imp[1], imp[2]
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, seen)
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return ('module', self.modules[base + '.' + nm])
                return ('ext', base + '.' + nm)
            if base + '.' + nm in self.modules:
                return ('module', self.modules[base + '.' + nm])
            return ('ext', (base + '.' if base else '') + nm)
        return None

    def resolve_class_expr(self, mod, e):
        if isinstance(e, ast.Name):
            r = self.resolve(mod, e.id)
            if r and r[0] == 'class':
                return r[1]
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.resolve(mod, e.value.id)
            if r and r[0] == 'module':
                r = self.resolve(r[1], e.attr)
                if r and r[0] == 'class':
                    return r[1]
        return None

    # ---- anchors ------------------------------------------------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorMissing('module %s' % name)
        return m

    def public(self, mod, name):
        """Resolve a public name through the package that exports it."""
        r = self.resolve(self.module(mod), name)
        if r is None or r[0] not in ('func', 'class'):
            raise AnchorMissing('%s.%s' % (mod, name))
        return r[1]

    def func(self, mod, name):
        f = self.public(mod, name)
        if not isinstance(f, Func):
            raise AnchorMissing('function %s.%s' % (mod, name))
        return f

    def cls(self, mod, name):
        c = self.public(mod, name)
        if not isinstance(c, Cls):
            raise AnchorMissing('class %s.%s' % (mod, name))
        return c

    def method(self, cls, name):
        f = cls.find(name)
        if f is None:
            raise AnchorMissing('method %s.%s' % (cls.qual, name))
        return f

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in c.mro() and c is not cls]
