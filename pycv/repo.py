"""Loads the *current* source of /repo/eckity and builds module / class tables.

Nothing is imported: the text that is verified is the text that CPython runs,
parsed with the standard `ast` module on every run.
"""
import ast
import hashlib
import os

REPO = os.environ.get('PYCV_REPO', '/repo')


class Func:
    """A function definition found in the source."""

    def __init__(self, node, module, cls=None, name=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = name or node.name
        decs = []
        for d in getattr(node, 'decorator_list', []):
            decs.append(ast.unparse(d).split('(')[0].split('.')[-1])
        self.decorators = decs
        self.is_static = 'staticmethod' in decs
        self.is_class = 'classmethod' in decs
        self.is_property = 'property' in decs
        self.is_abstract = 'abstractmethod' in decs

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else self.module.short + '.') + self.name

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self.bases = None
        self._mro = None
        self.code = None

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.short = name.split('.')[-1]
        with open(path, 'rb') as f:
            src = f.read()
        self.hash = hashlib.sha256(src).hexdigest()[:16]
        self.tree = ast.parse(src)
        self.names = {}     # name -> ('func',Func)|('class',Class)|('import',mod)|('from',mod,name)|('expr',ast)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.names[s.name] = ('func', Func(s, self))
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ('class', Class(s, self))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.names[s.target.id] = ('expr', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body)
                self._scan(s.orelse)


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, 'eckity')
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                pkg = False
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                    pkg = True
                self.modules[rel] = Module(rel, path, pkg)
        self.classes = {}
        for m in self.modules.values():
            for k, v in m.names.items():
                if v[0] == 'class':
                    self.classes.setdefault(k, v[1])
        code = 1000
        for c in sorted(self.classes.values(), key=lambda c: c.name):
            c.code = code
            code += 1
        for c in self.classes.values():
            c.bases = []
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r)

    # -- name resolution -------------------------------------------------
    def resolve(self, module, name, depth=0):
        """-> ('func',Func)|('class',Class)|('module',name)|('expr',ast,module)|('ext',qualname)|None"""
        if depth > 20:
            return None
        e = module.names.get(name)
        if e is None:
            return None
        if e[0] in ('func', 'class'):
            return e
        if e[0] == 'expr':
            return ('expr', e[1], module)
        if e[0] == 'import':
            return ('module', e[1])
        base, nm = e[1], e[2]
        full = base + '.' + nm
        if base in self.modules:
            r = self.resolve(self.modules[base], nm, depth + 1)
            if r is not None:
                return r
        if full in self.modules:
            return ('module', full)
        return ('ext', full)

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            r = self.resolve(module, e.id)
            if r and r[0] == 'class':
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            v = self.resolve_expr_mod(module, e.value)
            if v in self.modules:
                r = self.resolve(self.modules[v], e.attr)
                if r and r[0] == 'class':
                    return r[1]
        return None

    def resolve_expr_mod(self, module, e):
        if isinstance(e, ast.Name):
            r = self.resolve(module, e.id)
            return r[1] if r and r[0] == 'module' else None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_mod(module, e.value)
            return b + '.' + e.attr if b else None
        return None

    # -- classes -----------------------------------------------------------
    def mro(self, c):
        if c._mro is None:
            out = [c]
            lists = [list(self.mro(b)) for b in c.bases if b is not None]
            # C3 merge
            lists.append([b for b in c.bases if b is not None])
            while any(lists):
                lists = [l for l in lists if l]
                for l in lists:
                    h = l[0]
                    if not any(h in x[1:] for x in lists):
                        break
                else:
                    raise ValueError('mro')
                out.append(h)
                lists = [[x for x in l if x is not h] for l in lists]
            c._mro = out
        return c._mro

    def is_sub(self, c, d):
        return d in self.mro(c)

    def subclasses(self, c):
        return [d for d in self.classes.values() if c in self.mro(d)]

    def family(self, c):
        """Topmost repo class: fields of a whole hierarchy share heap components."""
        m = self.mro(c)
        # prefer the last class in the MRO
        return m[-1].name

    def find_method(self, c, name, after=None):
        m = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1:]
        for d in m:
            if name in d.methods:
                return d.methods[name]
        return None

    def find_attr(self, c, name):
        for d in self.mro(c):
            if name in d.attrs:
                return d, d.attrs[name]
        return None

    def has_unknown_base(self, c):
        return any(b is None for d in self.mro(c) for b in d.bases)
