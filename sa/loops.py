"""Meaning preserving rewrites of loops, used to audit the decision procedure.

Every rewrite is applied to the parsed function in memory; a check that reports
a violation afterwards judges how the code is written and is wrong.
"""
import ast

CNT = [0]


def _nm(p):
    CNT[0] += 1
    return '_{}{}'.format(p, CNT[0])


def _cp(new, old):
    for n in new if isinstance(new, list) else [new]:
        for x in ast.walk(n):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, old)
        ast.fix_missing_locations(n)
    return new


def _stmts(txt, at):
    b = ast.parse(txt).body
    for s in b:
        for x in ast.walk(s):
            ast.copy_location(x, at)
    return b


def own(body, kinds):
    """statements of the given kinds belonging to this loop body itself"""
    out = []
    todo = list(body)
    while todo:
        s = todo.pop()
        if isinstance(s, kinds):
            out.append(s)
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(s))
    return out


def writes(body):
    r = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)
                          ) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r.add(ast.unparse(x))
                if isinstance(x, ast.Subscript):
                    r.add(ast.unparse(x.value))
    return r


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def plain(n):
    """name or attribute chain"""
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def rewrite(fn, f):
    """apply f(stmt) -> list of stmts or None bottom up in all bodies"""
    done = [0]

    def go(n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or (b and not isinstance(
                    b[0], ast.stmt)):
                continue
            new = []
            for s in b:
                go(s)
                r = f(s)
                if r is None:
                    new.append(s)
                else:
                    done[0] += 1
                    new.extend(_cp(r, s))
            setattr(n, fld, new)
        for h in getattr(n, 'handlers', []):
            go(h)
    go(fn)
    return done[0]


def k_while(s):
    """for i in range(n)  ->  while"""
    if not (isinstance(s, ast.For) and not s.orelse and isinstance(
            s.target, ast.Name) and isinstance(s.iter, ast.Call)
            and ast.unparse(s.iter.func) == 'range'
            and 1 <= len(s.iter.args) <= 2
            and not own(s.body, ast.Continue)):
        return None
    a = s.iter.args
    if s.target.id in writes(s.body) or names(s.iter) & writes(s.body):
        return None
    i, k, e = s.target.id, _nm('w'), _nm('e')
    r = _stmts('{0} = {1}\n{2} = {3}\nwhile {0} < {2}:\n    {4} = {0}\n'
               '    {0} += 1'.format(
                   k, ast.unparse(a[0]) if len(a) == 2 else '0', e,
                   ast.unparse(a[-1]), i), s)
    r[-1].body = r[-1].body[:1] + s.body + r[-1].body[1:]
    return r


def k_enum(s):
    """for i, x in enumerate(X)  ->  counter"""
    if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call)
            and ast.unparse(s.iter.func) == 'enumerate'
            and len(s.iter.args) == 1 and not s.iter.keywords
            and isinstance(s.target, ast.Tuple)
            and isinstance(s.target.elts[0], ast.Name)):
        return None
    i = s.target.elts[0].id
    if i in writes(s.body):
        return None
    r = _stmts('{0} = -1\nfor _ in _:\n    {0} = {0} + 1'.format(i), s)
    r[1].target = s.target.elts[1]
    r[1].iter = s.iter.args[0]
    r[1].body = r[1].body + s.body
    r[1].orelse = s.orelse
    return r


def k_items(s):
    """for k, v in D.items()  ->  for k in D: v = D[k]"""
    if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call)
            and isinstance(s.iter.func, ast.Attribute)
            and s.iter.func.attr in ('items', 'values', 'keys')
            and not s.iter.args):
        return None
    d = s.iter.func.value
    if not plain(d) or ast.unparse(d) in writes(s.body) or any(
            x in writes(s.body) for x in names(d)):
        return None
    kind = s.iter.func.attr
    if kind == 'keys':
        s.iter = d
        return [s]
    if kind == 'items':
        if not isinstance(s.target, ast.Tuple):
            return None
        k, v = s.target.elts
        if not isinstance(k, ast.Name):
            return None
        if k.id in names(v) | writes(s.body) and k.id == '_':
            return None
    else:
        k, v = ast.Name(_nm('k'), ast.Store()), s.target
    b = _stmts('_ = {}[{}]'.format(ast.unparse(d), k.id), s)
    b[0].targets = [v]
    s.target, s.iter = k, d
    s.body = b + s.body
    return [s]


def k_toitems(s):
    """for k in D: .. D[k] ..  ->  for k, v in D.items(): .. v .."""
    if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name)
            and plain(s.iter)):
        return None
    d, k = ast.unparse(s.iter), s.target.id
    key = '{}[{}]'.format(d, k)
    w = writes(s.body)
    if key in w or k in w or d in w:
        return None
    hit = [x for b in s.body for x in ast.walk(b) if isinstance(
        x, ast.Subscript) and ast.unparse(x) == key]
    if not hit:
        return None
    v = _nm('v')

    class T(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if ast.unparse(n) == key:
                return ast.copy_location(ast.Name(v, ast.Load()), n)
            self.generic_visit(n)
            return n
    s.body = [T().visit(b) for b in s.body]
    h = _stmts('for {}, {} in {}.items():\n    pass'.format(k, v, d), s)[0]
    s.target, s.iter = h.target, h.iter
    return [s]


def k_list(s):
    """for x in I  ->  items = list(I); for x in items"""
    if not isinstance(s, ast.For) or isinstance(
            s.iter, ast.Call) and ast.unparse(s.iter.func) == 'range':
        return None
    l = _nm('l')
    r = _stmts('{} = list(_)'.format(l), s)
    r[0].value.args = [s.iter]
    s.iter = ast.copy_location(ast.Name(l, ast.Load()), s)
    return r + [s]


def k_guard(s):
    """for..: if c: body  ->  if not c: continue; body"""
    if not (isinstance(s, (ast.For, ast.While)) and s.body and isinstance(
            s.body[-1], ast.If) and not s.body[-1].orelse):
        return None
    i = s.body[-1]
    s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test),
                                   [ast.Continue()], [])] + i.body
    return [s]


def k_unguard(s):
    """if c: continue; rest  ->  if not c: rest"""
    if not isinstance(s, (ast.For, ast.While)):
        return None
    for n, b in enumerate(s.body[:-1]):
        if isinstance(b, ast.If) and not b.orelse and len(
                b.body) == 1 and isinstance(b.body[0], ast.Continue):
            s.body = s.body[:n] + [ast.If(ast.UnaryOp(
                ast.Not(), b.test), s.body[n + 1:], [])]
            return [s]
    return None


def _first_comp(s):
    """the comprehension evaluated unconditionally in an assignment/expr"""
    v = getattr(s, 'value', None)
    if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)):
        return None
    if any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.NamedExpr))
           for x in ast.walk(v or ast.Pass())):
        return None
    cs = [x for x in ast.walk(v or ast.Pass()) if isinstance(
        x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp))]
    if len(cs) != 1 or len(cs[0].generators) != 1:
        return None
    # nothing with an effect may be evaluated before
    if any(isinstance(x, ast.Call) and x not in list(ast.walk(cs[0]))
           and not any(y is cs[0] for y in ast.walk(x))
           for x in ast.walk(v)):
        return None
    return cs[0]


def _ren(n, mp):
    class T(ast.NodeTransformer):
        def visit_Name(self, x):
            if x.id in mp:
                return ast.copy_location(ast.Name(mp[x.id], x.ctx), x)
            return x
    return T().visit(n)


def k_comp(s):
    """[E for t in I if c]  ->  append loop"""
    c = _first_comp(s)
    if c is None or isinstance(c, ast.GeneratorExp) and any(
            isinstance(x, ast.Call) and ast.unparse(x.func) in (
                'any', 'all', 'next') for x in ast.walk(s)):
        return None
    g = c.generators[0]
    l = _nm('c')
    mp = {x: _nm('t') for x in names(g.target)}
    g.target = _ren(g.target, mp)
    g.ifs = [_ren(x, mp) for x in g.ifs]
    if isinstance(c, ast.DictComp):
        r = _stmts('{0} = {{}}\nfor _ in _:\n    {0}[0] = 1'.format(l), s)
        r[1].body[0].targets[0].slice = _ren(c.key, mp)
        r[1].body[0].value = _ren(c.value, mp)
    elif isinstance(c, ast.SetComp):
        r = _stmts('{0} = set()\nfor _ in _:\n    {0}.add(1)'.format(l), s)
        r[1].body[0].value.args = [_ren(c.elt, mp)]
    else:
        r = _stmts('{0} = []\nfor _ in _:\n    {0}.append(1)'.format(l), s)
        r[1].body[0].value.args = [_ren(c.elt, mp)]
    r[1].target, r[1].iter = g.target, g.iter
    for i in reversed(g.ifs):
        r[1].body = [ast.If(i, r[1].body, [])]

    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is c:
                return ast.copy_location(ast.Name(l, ast.Load()), n)
            return self.generic_visit(n)
    s.value = T().visit(s.value)
    return r + [s]


def k_uncomp(fn):
    """x = []; for t in I: [if c:] x.append(E)  ->  comprehension"""
    done = 0
    for n in ast.walk(fn):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            i = 0
            while i + 1 < len(b):
                a, f = b[i], b[i + 1]
                i += 1
                if not (isinstance(a, ast.Assign) and isinstance(
                        f, ast.For) and len(f.body) == 1):
                    continue
                if ast.unparse(a.value) not in ('[]', '{}', 'set()', 'list()',
                                                'dict()'):
                    continue
                x = ast.unparse(a.targets[0])
                s, ifs = f.body[0], []
                while isinstance(s, ast.If) and not s.orelse and len(
                        s.body) == 1:
                    ifs.append(s.test)
                    s = s.body[0]
                if isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Call) and ast.unparse(
                        s.value.func) == x + '.append':
                    v = ast.ListComp(s.value.args[0], [ast.comprehension(
                        f.target, f.iter, ifs, 0)])
                elif isinstance(s, ast.Assign) and isinstance(
                        s.targets[0], ast.Subscript) and ast.unparse(
                        s.targets[0].value) == x:
                    v = ast.DictComp(s.targets[0].slice, s.value, [
                        ast.comprehension(f.target, f.iter, ifs, 0)])
                else:
                    continue
                if x in {ast.unparse(y) for z in [v] for y in ast.walk(z)
                         if isinstance(y, (ast.Name, ast.Attribute))}:
                    continue
                a.value = v
                _cp([a], a)
                del b[i]
                done += 1
    return done


def k_filter(s):
    """for t in I: if c: body  ->  hits = [t for t in I if c]; for t in hits"""
    if not (isinstance(s, ast.For) and len(s.body) == 1 and isinstance(
            s.body[0], ast.If) and not s.body[0].orelse):
        return None
    i = s.body[0]
    if any(isinstance(x, ast.Call) and ast.unparse(x.func) not in (
            'isinstance', 'len', 'abs', 'type', 'hasattr')
           for x in ast.walk(i.test)):
        return None
    w = writes(i.body)
    rd = {ast.unparse(x) for x in ast.walk(i.test) if isinstance(
        x, (ast.Name, ast.Attribute, ast.Subscript))} - names(s.target)
    if w & rd or any(isinstance(x, ast.Attribute) for x in ast.walk(
            i.test)) and any(isinstance(x, ast.Call) for b in i.body
                             for x in ast.walk(b)):
        return None
    l = _nm('f')
    r = _stmts('{} = [0 for _ in _ if _]'.format(l), s)
    c = r[0].value
    c.elt = ast.parse(ast.unparse(s.target), mode='eval').body
    c.generators[0].target = s.target
    c.generators[0].iter = s.iter
    c.generators[0].ifs = [i.test]
    s.iter = ast.Name(l, ast.Load())
    s.target = ast.parse(ast.unparse(s.target) + ' = 0').body[0].targets[0]
    s.body = i.body
    return r + [s]


def k_anyall(s):
    """if any(E for t in I)  ->  flag loop"""
    if not isinstance(s, (ast.If, ast.Assign, ast.Return)):
        return None
    e = s.test if isinstance(s, ast.If) else s.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
    if not (isinstance(e, ast.Call) and ast.unparse(e.func) in ('any', 'all')
            and e.args and isinstance(e.args[0], ast.GeneratorExp)
            and len(e.args[0].generators) == 1):
        return None
    g = e.args[0].generators[0]
    mp = {x: _nm('t') for x in names(g.target)}
    fl = _nm('b')
    al = e.func.id == 'all'
    r = _stmts('{0} = {1}\nfor _ in _:\n    if _:\n        {0} = {2}\n'
               '        break'.format(fl, al, not al), s)
    r[1].target = _ren(g.target, mp)
    r[1].iter = g.iter
    t = _ren(e.args[0].elt, mp)
    if g.ifs:
        return None
    r[1].body[0].test = ast.UnaryOp(ast.Not(), t) if al else t

    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is e:
                return ast.copy_location(ast.Name(fl, ast.Load()), n)
            return self.generic_visit(n)
    if isinstance(s, ast.If):
        s.test = T().visit(s.test)
    else:
        s.value = T().visit(s.value)
    return r + [s]


def k_zip(s):
    """for a, b in zip(X, Y)  ->  for i in range(len(X))"""
    if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call)
            and ast.unparse(s.iter.func) == 'zip'
            and len(s.iter.args) == 2 and isinstance(s.target, ast.Tuple)):
        return None
    a, b = _nm('a'), _nm('z')
    i = _nm('i')
    r = _stmts('{0} = list(_)\n{1} = list(_)\n'
               'for {2} in range(min(len({0}), len({1}))):\n'
               '    _ = {0}[{2}]\n    _ = {1}[{2}]'.format(a, b, i), s)
    r[0].value.args = [s.iter.args[0]]
    r[1].value.args = [s.iter.args[1]]
    r[2].body[0].targets = [s.target.elts[0]]
    r[2].body[1].targets = [s.target.elts[1]]
    r[2].body += s.body
    return r


def k_tuple(s):
    """a, b = x, y  ->  two assignments through temporaries"""
    if not (isinstance(s, ast.Assign) and isinstance(
            s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple)
            and len(s.targets[0].elts) == len(s.value.elts)
            and len(s.targets) == 1):
        return None
    ts = [_nm('p') for _ in s.value.elts]
    return [ast.Assign([ast.Name(t, ast.Store())], v) for t, v in zip(
        ts, s.value.elts)] + [ast.Assign([x], ast.Name(t, ast.Load()))
                              for t, x in zip(ts, s.targets[0].elts)]


def k_get(s):
    """if k in D: x = D[k] else: x = d   <->  D.get(k, d) (assign form)"""
    if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call)
            and isinstance(s.value.func, ast.Attribute)
            and s.value.func.attr == 'get' and len(s.value.args) == 2):
        return None
    d, (k, v) = ast.unparse(s.value.func.value), s.value.args
    t = ast.unparse(s.targets[0])
    return _stmts('if {0} in {1}:\n    {2} = {1}[{0}]\nelse:\n    {2} = {3}'
                  .format(ast.unparse(k), d, t, ast.unparse(v)), s)


STMT = {'while': k_while, 'enum': k_enum, 'items': k_items,
        'toitems': k_toitems, 'list': k_list, 'guard': k_guard,
        'unguard': k_unguard, 'comp': k_comp, 'filter': k_filter,
        'anyall': k_anyall, 'zip': k_zip, 'tuple': k_tuple, 'get': k_get}
KINDS = list(STMT) + ['uncomp']


def apply(kind, fn):
    n = k_uncomp(fn) if kind == 'uncomp' else rewrite(fn, STMT[kind])
    ast.fix_missing_locations(fn)
    return n
