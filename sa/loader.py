"""Program model: parses every module of the package under analysis and
resolves names, imports, classes and methods.  Nothing is imported or run."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of a rule is gone / the source cannot be analysed."""


class Func:
    __slots__ = ('node', 'module', 'cls', 'name', 'closure')

    def __init__(self, node, module, cls=None, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        self.closure = closure

    @property
    def qual(self):
        c = self.cls.name + '.' if self.cls else ''
        return '{}:{}{}'.format(self.module.path, c, self.name)

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                   for d in getattr(self.node, 'decorator_list', []))

    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod'
                   for d in getattr(self.node, 'decorator_list', []))

    def is_property(self):
        return any(isinstance(d, ast.Name) and d.id == 'property'
                   for d in getattr(self.node, 'decorator_list', []))

    def __repr__(self):
        return '<Func {}>'.format(self.qual)


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 \
                    and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.node.bases:
                bc = self.module.resolve_expr(b)
                if isinstance(bc, Class):
                    for c in bc.mro():
                        if c not in out:
                            out.append(c)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        """Resolve a method through the MRO (optionally after class `after`)."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
            pre = '_' + c.name.lstrip('_') + '__'
            if name.startswith(pre) and name[len(pre) - 2:] in c.methods:
                return c.methods[name[len(pre) - 2:]]
        return None

    def const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def assigned_attrs(self):
        """every attribute name assigned through any receiver in the MRO"""
        if not hasattr(self, '_assigned'):
            s = set()
            for c in self.mro():
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
            self._assigned = s
        return self._assigned

    def __repr__(self):
        return '<Class {}>'.format(self.name)


class Module:
    def __init__(self, prog, dotted, path, rel, is_pkg):
        self.prog = prog
        self.dotted = dotted
        self.path = rel
        self.is_pkg = is_pkg
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as e:
            raise AnalysisBroken('{}: syntax error: {}'.format(rel, e))
        self.funcs = {}
        self.classes = {}
        self.imports = {}
        self.consts = {}
        self._scan(self.tree.body)
        # imports inside functions are visible as fall-back
        self.local_imports = {}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(n, self.local_imports)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                self._imp(s, self.imports)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)

    def _imp(self, s, into):
        if isinstance(s, ast.Import):
            for a in s.names:
                into[a.asname or a.name.split('.')[0]] = (
                    'mod', a.name if a.asname else a.name.split('.')[0])
        else:
            base = s.module or ''
            if s.level:
                parts = self.dotted.split('.')
                if not self.is_pkg:
                    parts = parts[:-1]
                up = s.level - 1
                if up:
                    parts = parts[:-up]
                base = '.'.join(parts + ([base] if base else []))
            for a in s.names:
                into[a.asname or a.name] = ('from', base, a.name)

    def resolve(self, name, seen=None):
        """-> Func | Class | Module | ('ext', dotted) | ('const', Module, expr)
        | None"""
        seen = seen or set()
        if (self.dotted, name) in seen:
            return None
        seen.add((self.dotted, name))
        if name in self.funcs:
            return self.funcs[name]
        if name in self.classes:
            return self.classes[name]
        for imp in (self.imports, self.local_imports):
            if name in imp:
                return self._res_imp(imp[name], seen)
        if name in self.consts:
            v = self.consts[name]
            # alias of a function (name = other_function)
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve(v.id, seen)
                if r is not None:
                    return r
            return ('const', self, v)
        return None

    def _res_imp(self, ent, seen):
        if ent[0] == 'mod':
            m = self.prog.modules.get(ent[1])
            return m if m is not None else ('ext', ent[1])
        _, base, nm = ent
        full = base + '.' + nm if base else nm
        if full in self.prog.modules:
            return self.prog.modules[full]
        m = self.prog.modules.get(base)
        if m is not None:
            r = m.resolve(nm, seen)
            if r is not None:
                return r
            return ('ext', full)
        return ('ext', full)

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.resolve(e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def __repr__(self):
        return '<Module {}>'.format(self.dotted)


class Program:
    def __init__(self, repo='/repo', pkg='multisim', skip=()):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken('package {} not found in {}'.format(pkg, repo))
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.')
                             and x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                dotted = rel[:-3].replace(os.sep, '.')
                is_pkg = f == '__init__.py'
                if is_pkg:
                    dotted = dotted[:-len('.__init__')]
                self.modules[dotted] = Module(self, dotted, p, rel, is_pkg)

    def array_attrs(self):
        """attribute names only ever bound to numpy arrays"""
        if not hasattr(self, '_arrattr'):
            yes, no = set(), set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if not isinstance(n, ast.Assign):
                        continue
                    v = n.value
                    while isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Attribute) and v.func.attr in (
                                'astype', 'copy', 'reshape'):
                        v = v.func.value
                    arr = isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Attribute) and isinstance(
                        v.func.value, ast.Name) and v.func.value.id == 'np' \
                        and v.func.attr in (
                            'zeros', 'ones', 'empty', 'full', 'array',
                            'zeros_like', 'ones_like', 'full_like',
                            'empty_like', 'append', 'arange')
                    for t in n.targets:
                        if isinstance(t, ast.Attribute):
                            (yes if arr else no).add(t.attr)
            self._arrattr = yes - no
        return self._arrattr

    def module(self, dotted):
        m = self.modules.get(dotted)
        if m is None:
            raise AnalysisBroken('module {} is gone'.format(dotted))
        return m

    def cls(self, name):
        """class by name anywhere in the package (prefers non-duplicates)"""
        hits = [m.classes[name] for m in self.modules.values()
                if name in m.classes]
        if not hits:
            raise AnalysisBroken('class {} is gone'.format(name))
        return hits[0]

    def clsin(self, dotted, name):
        m = self.module(dotted)
        r = m.resolve(name)
        if not isinstance(r, Class):
            raise AnalysisBroken('class {}.{} is gone'.format(dotted, name))
        return r

    def func(self, dotted, name):
        m = self.module(dotted)
        r = m.resolve(name)
        if not isinstance(r, Func):
            raise AnalysisBroken('function {}.{} is gone'.format(dotted, name))
        return r

    def subclasses(self, base):
        return [c for m in self.modules.values() for c in m.classes.values()
                if base in c.mro() and c is not base]

    def n_functions(self):
        return sum(1 for m in self.modules.values() for n in ast.walk(m.tree)
                   if isinstance(n, ast.FunctionDef))
