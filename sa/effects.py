"""Alias and effect analysis over the syntax trees of the whole package: which
objects that outlive a call (module and class level objects, default values of
parameters, arguments of the caller) each function writes to.

A value is a set of (root, depth): depth 0 is the object itself, 1 something
it contains, -n an object of which n levels are fresh (a shallow copy of the
root, or a new container around it, is -1).  Summaries of
the functions (written roots, returned aliases, attributes that keep an alias)
are iterated to a fixpoint over the call graph.  Calls by attribute are
resolved to the class of `self` or, failing that, to every method of that name
in the package."""
import ast

from .loader import Class, Func, Module

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear',
            'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
            'move_to_end', 'appendleft', 'popleft', 'fill', 'put', 'resize',
            'partition', 'itemset', '__setitem__', '__delitem__',
            'difference_update', 'intersection_update', 'setflags'}
INNER = {'get', 'values', 'items', 'pop', 'setdefault', 'popitem',
         '__getitem__'}
ALIAS = {'ravel', 'reshape', 'view', 'squeeze', 'transpose', 'asarray',
         'asanyarray', 'atleast_1d', 'atleast_2d', 'swapaxes', 'keys'}
SHALLOW = {'copy', 'dict', 'list', 'tuple', 'set', 'sorted', 'OrderedDict',
           '_odict', 'odict', 'reversed', 'enumerate', 'zip', 'iter',
           'frozenset'}
NPWRITE = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0,
           'fill_diagonal': 0, 'shuffle': 0}
FRESH = frozenset()


def deeper(v):
    return frozenset((r, d + 1 if d < -1 else 1) for r, d in v)


def shallow(v, n=1):
    """a container with copied elements"""
    return frozenset((r, min(d, -n)) for r, d in v)


def wrap(v, n=1):
    """n fresh containers around the values"""
    return frozenset((r, max((d if d < 0 else 0) - n, -5)) for r, d in v)


class Summary:
    def __init__(self):
        self.writes = {}        # root -> (node, how)
        self.ret = FRESH
        self.keeps = {}         # (class name, attr) -> (roots, node)

    def state(self):
        return (frozenset(self.writes), self.ret,
                frozenset((k, v[0]) for k, v in self.keeps.items()))


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                      ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        return n not in ('float', 'int', 'str', 'bool', 'tuple', 'frozenset',
                         'namedtuple', 'compile', 'getLogger', 'range',
                         'property', 'partial')
    return False


class Effects:
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.funcs = []
        self.methods = {}
        self.classes = []
        self.called = set()     # functions the package itself calls
        for m in prog.modules.values():
            if any(m.path.endswith(x) or x in m.path for x in skip):
                continue
            self._collect(m.tree.body, m, None)
        self.glob = {}          # (module, name) -> node of mutable globals
        for m in prog.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and \
                        s.value is not None and mutable(s.value):
                    for t in (s.targets if isinstance(s, ast.Assign)
                              else [s.target]):
                        if isinstance(t, ast.Name) and t.id != '__all__':
                            self.glob[(m.path, t.id)] = s
        self.clsattr = {}       # (class, attr) -> node
        for c in self.classes:
            for k, v in c.consts.items():
                if mutable(v):
                    self.clsattr[(c.name, k)] = v
        self.sums = {f.qual + ':%d' % f.node.lineno: Summary()
                     for f in self.funcs}
        for _ in range(8):
            before = [s.state() for s in self.sums.values()]
            for f in self.funcs:
                Walker(self, f).run()
            if before == [s.state() for s in self.sums.values()]:
                break

    def _collect(self, body, m, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m, cls)
                self.funcs.append(f)
                if cls is not None:
                    self.methods.setdefault(s.name, []).append(f)
            elif isinstance(s, ast.ClassDef):
                c = m.classes.get(s.name) or Class(s, m)
                self.classes.append(c)
                self._collect(s.body, m, c)
            elif isinstance(s, (ast.If, ast.Try)):
                for b in (getattr(s, 'body', []), getattr(s, 'orelse', []),
                          getattr(s, 'finalbody', [])):
                    self._collect(b, m, cls)

    def owned(self, cls, attr):
        return any(sets(c, attr) for c in self.classes if c.name == cls)

    def sum(self, f):
        return self.sums.setdefault(f.qual + ':%d' % f.node.lineno, Summary())

    def loc(self, f, node):
        return (f.module.path, getattr(node, 'lineno', 0),
                (f.cls.name + '.' if f.cls else '') + f.name)


def sets(cls, attr):
    """does the constructor of the class set the attribute of the instance"""
    i = cls.methods.get('__init__')
    return i is not None and any(
        isinstance(n, ast.Attribute) and n.attr == attr and
        isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and
        n.value.id == i.node.args.args[0].arg for n in ast.walk(i.node))


class Walker:
    def __init__(self, eff, f):
        self.e = eff
        self.f = f
        self.s = eff.sum(f)
        self.globals = set()

    def run(self):
        a = self.f.node.args
        env = {}
        ps = a.posonlyargs + a.args + a.kwonlyargs
        self.me = None
        if self.f.cls is not None and not self.f.is_static() and a.args:
            self.me = a.args[0].arg
        for p in ps:
            if p.arg != self.me:
                env[p.arg] = frozenset([(('param', p.arg), 0)])
        if a.vararg:
            env[a.vararg.arg] = frozenset([(('param', '*'), -1)])
        if a.kwarg:
            env[a.kwarg.arg] = frozenset([(('param', '**'), -1)])
        self.env = env
        self.block(self.f.node.body)

    # --------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branch(self, *bodies):
        start = self.env
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        env = {}
        for o in outs:
            for k, v in o.items():
                env[k] = env.get(k, FRESH) | v
        self.env = env

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.val(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.val(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.val(s.value)
            if isinstance(s.target, ast.Name):
                self.global_name(s.target.id, s)
                if s.target.id in self.env:
                    # in place for lists, dicts, sets and arrays
                    if isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd)):
                        self.write(self.env[s.target.id], s, 'augmented '
                                   'assignment', aug=True)
                    else:
                        self.env[s.target.id] = FRESH
            else:
                self.target(s.target)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
                else:
                    self.target(t)
        elif isinstance(s, ast.If):
            self.val(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.val(s.iter)
            for _ in range(2):
                start = dict(self.env)
                self.assign(s.target, deeper(v), None)
                self.block(s.body)
                for k, x in start.items():
                    self.env[k] = self.env.get(k, FRESH) | x
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                start = dict(self.env)
                self.val(s.test)
                self.block(s.body)
                for k, x in start.items():
                    self.env[k] = self.env.get(k, FRESH) | x
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.val(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            start = dict(self.env)
            self.block(s.body)
            main = self.env
            for h in s.handlers:
                self.env = dict(start)
                self.block(h.body)
                for k, x in self.env.items():
                    main[k] = main.get(k, FRESH) | x
            self.env = main
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret = self.s.ret | self.val(s.value)
        elif isinstance(s, ast.Expr):
            self.val(s.value)
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # nested function: its body acts on the names around it
            keep = dict(self.env)
            a = s.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                self.env[p.arg] = FRESH
            for x in (a.vararg, a.kwarg):
                if x is not None:
                    self.env[x.arg] = FRESH
            self.block(s.body)
            self.env = keep
            self.env[s.name] = FRESH
        elif isinstance(s, (ast.Assert, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.val(c)

    def global_name(self, name, node):
        if name in self.globals:
            self.put(('global', self.f.module.path, name), node,
                     'rebinds a module level name')

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.global_name(t.id, t)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = node.elts if isinstance(node, (ast.Tuple, ast.List)) and \
                len(node.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                if elts is not None:
                    self.assign(x, self.val(elts[i]), elts[i])
                else:
                    self.assign(x, deeper(v), None)
        else:
            self.target(t, v)

    def target(self, t, v=FRESH):
        """store into an attribute or an element"""
        if isinstance(t, ast.Attribute):
            b = t.value
            c = self.class_of(b)
            if c is not None:
                self.put(('class', c, t.attr), t, 'sets a class attribute')
                return
            m = self.module_of(b)
            if m is not None:
                self.put(('global', m, t.attr), t, 'sets a module attribute')
                return
            w = self.val(b)
            if t.attr in ('index', 'columns', 'values', 'dtype', 'shape'):
                self.write(frozenset((r, d) for r, d in w
                                     if r[0] == 'param'), t,
                           'sets .%s' % t.attr)
            if v and isinstance(b, ast.Name) and b.id == self.me:
                old = self.s.keeps.get((self.f.cls.name, t.attr))
                self.s.keeps[(self.f.cls.name, t.attr)] = (
                    (old[0] if old else FRESH) | v, t)
            return
        if isinstance(t, ast.Subscript):
            self.val(t.slice)
            self.write(self.val(t.value), t, 'stores an element')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)

    # -------------------------------------------------------- expressions
    def class_of(self, e):
        """name of the class an expression denotes"""
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return self.f.cls.name if self.f.cls else '?'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'type' and len(e.args) == 1:
            return self.f.cls.name if self.f.cls else '?'
        if isinstance(e, ast.Name) and e.id == self.me and \
                self.f.is_classmethod():
            return self.f.cls.name
        if isinstance(e, (ast.Name, ast.Attribute)) and not (
                isinstance(e, ast.Name) and e.id in self.env):
            try:
                r = self.f.module.resolve_expr(e)
            except Exception:
                return None
            if isinstance(r, Class):
                return r.name
        return None

    def module_of(self, e):
        if isinstance(e, ast.Name) and e.id not in self.env and \
                e.id != self.me:
            r = self.f.module.resolve(e.id)
            if isinstance(r, Module):
                return r.path
            if isinstance(r, tuple) and r and r[0] in ('ext', 'extmod') and \
                    r[-1] not in ('', None):
                return str(r[-1])
        elif isinstance(e, ast.Attribute):
            m = self.module_of(e.value)
            if m is not None and m.endswith('.py') is False:
                return m + '.' + e.attr
        return None

    def put(self, root, node, how, d=0):
        self.s.writes.setdefault((root, d), (node, how))

    def write(self, v, node, how, aug=False):
        for r, d in v:
            if d >= 0:
                if aug and r[0] == 'param' and d == 0:
                    # numbers and strings are rebound; containers not
                    r = ('augparam',) + r[1:]
                self.put(r, node, how, d)

    def val(self, e):
        if e is None:
            return FRESH
        if isinstance(e, ast.Name):
            if e.id in self.env and e.id not in self.globals:
                return self.env[e.id]
            if e.id == self.me:
                return FRESH
            k = (self.f.module.path, e.id)
            if k in self.e.glob:
                return frozenset([(('global',) + k, 0)])
            r = self.f.module.resolve(e.id)
            for m in self.e.prog.modules.values():
                # imported module level object
                if isinstance(r, tuple) and len(r) > 1 and \
                        (m.path, e.id) in self.e.glob and r[1] is m:
                    return frozenset([(('global', m.path, e.id), 0)])
            return FRESH
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me:
                for c in (self.f.cls.mro() if self.f.cls else ()):
                    if (c.name, e.attr) in self.e.clsattr and not \
                            self.own(e.attr):
                        return frozenset([(('class', c.name, e.attr), 0)])
                out = FRESH
                for c in (self.f.cls.mro() if self.f.cls else ()):
                    out |= frozenset([(('attr', c.name, e.attr), 0)])
                return out
            c = self.class_of(e.value)
            if c is not None and (c, e.attr) in self.e.clsattr:
                return frozenset([(('class', c, e.attr), 0)])
            if isinstance(e.value, ast.Name) and e.value.id not in self.env:
                r = self.f.module.resolve(e.value.id)
                if isinstance(r, Module) and (r.path, e.attr) in self.e.glob:
                    return frozenset([(('global', r.path, e.attr), 0)])
            v = self.val(e.value)
            if e.attr in ('values', 'loc', 'iloc', 'at', 'iat', 'flat'):
                return v
            return frozenset(
                (('class', c, a), 0) for c, a in self.e.clsattr
                if a == e.attr and not self.e.owned(c, a))
        if isinstance(e, ast.Subscript):
            self.val(e.slice)
            if isinstance(e.slice, ast.Slice) and e.slice.lower is None \
                    and e.slice.upper is None and e.slice.step is None:
                v = self.val(e.value)
                return shallow(frozenset(x for x in v if x[0][0] == 'param')
                               ) | frozenset(x for x in v
                                             if x[0][0] != 'param')
            return deeper(self.val(e.value))
        if isinstance(e, ast.IfExp):
            self.val(e.test)
            return self.val(e.body) | self.val(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = FRESH
            for x in e.values:
                out |= self.val(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = FRESH
            for x in e.elts:
                out |= self.val(x.value) if isinstance(x, ast.Starred) \
                    else wrap(self.val(x))
            return shallow(out)
        if isinstance(e, ast.Dict):
            out = FRESH
            for k, x in zip(e.keys, e.values):
                self.val(k)
                out |= self.val(x) if k is None else wrap(self.val(x))
            return shallow(out)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            keep = dict(self.env)
            for g in e.generators:
                self.assign(g.target, deeper(self.val(g.iter)), None)
                for i in g.ifs:
                    self.val(i)
            out = FRESH
            if isinstance(e, ast.DictComp):
                self.val(e.key)
                out |= self.val(e.value)
            else:
                out |= self.val(e.elt)
            self.env = keep
            return wrap(out)
        if isinstance(e, ast.Starred):
            return self.val(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left), self.val(e.right)
            return shallow(a | b) if isinstance(
                e.op, (ast.BitOr, ast.Add)) else FRESH
        if isinstance(e, ast.Lambda):
            return FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.val(c)
        return FRESH

    def own(self, attr):
        """is the attribute set per instance by an __init__?"""
        return any(sets(c, attr) for c in self.f.cls.mro())

    def call(self, e):
        f = e.func
        args = [self.val(a.value if isinstance(a, ast.Starred) else a)
                for a in e.args]
        kws = [(k.arg, self.val(k.value)) for k in e.keywords]
        name = f.id if isinstance(f, ast.Name) else \
            f.attr if isinstance(f, ast.Attribute) else ''
        recv = FRESH
        if isinstance(f, ast.Attribute):
            recv = self.val(f.value)
            if name in MUTATORS:
                self.write(recv, e, 'calls .%s()' % name)
            if any(k.arg == 'inplace' and isinstance(k.value, ast.Constant)
                   and k.value.value is True for k in e.keywords):
                self.write(recv, e, 'in-place operation')
            if name in NPWRITE and args and not recv:
                self.write(args[0], e, 'np.' + name)
        for k in e.keywords:
            if k.arg == 'out':
                self.write(self.val(k.value), e, 'output argument')
        if name == 'setattr' and isinstance(f, ast.Name) and e.args:
            c = self.class_of(e.args[0])
            if c is not None:
                a = e.args[1].value if isinstance(
                    e.args[1], ast.Constant) else '*'
                self.put(('class', c, a), e, 'sets a class attribute')
        targets = self.callees(f)
        for g in targets:
            self.e.called.add(g.node)
        if targets:
            out = FRESH
            for g in targets:
                out |= self.apply(g, e, args, kws)
            return out
        if name in INNER and recv:
            if name == 'items':
                return frozenset((r, max(min(d, -1) - 1, -5))
                                 for r, d in recv)
            if name == 'values':
                return shallow(recv)
            return deeper(recv)
        if name in SHALLOW:
            out = recv if name == 'copy' else FRESH
            for a in args:
                out |= a
            if name in ('enumerate', 'zip'):
                return frozenset((r, max(min(d, -1) - 1, -5))
                                 for r, d in out)
            for _, a in kws:
                out |= wrap(a)
            return shallow(out)
        if name in ALIAS:
            return recv | (args[0] if args else FRESH)
        return FRESH

    def callees(self, f):
        if isinstance(f, ast.Name):
            if f.id in self.env:
                return []
            try:
                r = self.f.module.resolve(f.id)
            except Exception:
                return []
            return self.as_funcs(r)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.me and \
                    self.f.cls is not None:
                m = self.f.cls.find(f.attr)
                if m is not None:
                    return [m]
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super' \
                    and self.f.cls is not None:
                m = self.f.cls.find(f.attr, after=self.f.cls)
                return [m] if m is not None else []
            try:
                r = self.f.module.resolve_expr(f)
            except Exception:
                r = None
            g = self.as_funcs(r)
            if g:
                return g
            if f.attr in MUTATORS or f.attr in INNER or f.attr in SHALLOW:
                return []
            return self.e.methods.get(f.attr, [])
        return []

    def as_funcs(self, r):
        if isinstance(r, Func):
            return [r]
        if isinstance(r, Class):
            m = r.find('__init__')
            return [m] if m is not None else []
        return []

    def apply(self, g, e, args, kws):
        s = self.e.sum(g)
        a = g.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if g.cls is not None and not g.is_static() and ps:
            unbound = isinstance(e.func, ast.Attribute) and \
                self.class_of(e.func.value) is not None and \
                not g.is_classmethod() and g.name != '__init__'
            if not unbound:
                ps = ps[1:]
        kwo = [p.arg for p in a.kwonlyargs]
        bind = {}
        stars = [i for i, x in enumerate(e.args) if isinstance(
            x, ast.Starred)]
        # positionals behind an unpacked argument fill the last parameters
        tail = len(args) - 1 - stars[-1] if stars else 0
        front = ps[:len(ps) - tail]
        for i, v in enumerate(args):
            if i in stars:
                for p in front[min(stars[0], len(front)):] + ['*']:
                    bind[p] = bind.get(p, FRESH) | deeper(v)
            elif stars and i > stars[0]:
                j = i - len(args)
                if i > stars[-1] and not a.defaults and -j <= len(ps):
                    bind[ps[j]] = v
            elif i >= len(ps):
                bind['*'] = v
            else:
                bind[ps[i]] = v
        for k, v in kws:
            if k is None:
                for p in ps + kwo:
                    bind[p] = bind.get(p, FRESH) | deeper(v)
                bind['**'] = bind.get('**', FRESH) | wrap(deeper(v))
            elif k in ps or k in kwo:
                bind[k] = v
            else:
                bind['**'] = bind.get('**', FRESH) | wrap(v)
        for (r, d), (node, how) in list(s.writes.items()):
            if r[0] in ('param', 'augparam'):
                v = bind.get(r[1], FRESH)
                self.write(v if d == 0 else deeper(v), e, 'passes it to %s, '
                           'which writes it (line %d)' % (
                               g.qual, getattr(node, 'lineno', 0)))
        for k, (roots, node) in list(s.keeps.items()):
            got = FRESH
            for r, d in roots:
                if r[0] == 'param' and r[1] in bind:
                    got |= bind[r[1]] if d == 0 else deeper(bind[r[1]]) \
                        if d == 1 else shallow(bind[r[1]])
            got = frozenset(x for x in got if x[0][0] != 'attr')
            if got:
                old = self.s.keeps.get(k)
                self.s.keeps[k] = ((old[0] if old else FRESH) | got, e)
        out = FRESH
        for r, d in s.ret:
            if r[0] == 'param':
                v = bind.get(r[1], FRESH)
                out |= v if d == 0 else deeper(v) if d == 1 else shallow(v)
            elif r[0] in ('global', 'class'):
                out |= frozenset([(r, d)])
        return out