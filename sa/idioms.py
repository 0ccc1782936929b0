"""Meaning preserving rewrites of small idioms, used to audit the decision
procedure the way sa/loops.py does for loops."""
import ast
from .loops import rewrite, _stmts, _cp, writes, names, plain, _nm


class _Tr(ast.NodeTransformer):
    n = 0

    def hit(self, new, old):
        self.n += 1
        _cp(new, old)
        return new


class Alias(_Tr):
    """self.x (only read)  ->  x = self.x at the top"""
    @staticmethod
    def run(fn):
        a = fn.args.posonlyargs + fn.args.args
        if not a or a[0].arg != 'self':
            return 0
        reads, bad = {}, set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == 'self':
                return 0
            if isinstance(n, ast.Call) and any(
                    isinstance(x, ast.Name) and x.id == 'self'
                    for x in n.args):
                return 0
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, ast.Load):
                    reads[n.attr] = reads.get(n.attr, 0) + 1
                else:
                    bad.add(n.attr)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                return 0
        # only what is certainly evaluated by the first statement counts as
        # being there
        body = [s for s in fn.body if not (isinstance(s, ast.Expr)
                and isinstance(s.value, ast.Constant))]
        if not body or not isinstance(body[0], (ast.Assign, ast.Expr,
                                                ast.AugAssign)):
            return 0
        first = {n.attr for n in ast.walk(body[0]) if isinstance(
            n, ast.Attribute) and isinstance(n.value, ast.Name)
            and n.value.id == 'self'}
        use = [x for x in reads if x not in bad and x in first]
        if not use:
            return 0
        mp = {x: _nm('al_' + x.strip('_')) for x in use}

        class T(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' \
                        and n.attr in mp:
                    return ast.copy_location(ast.Name(mp[n.attr], n.ctx), n)
                return n
        fn.body = [T().visit(s) for s in fn.body]
        pre = []
        for x in use:
            pre += _stmts('{} = self.{}'.format(mp[x], x), body[0])
        k = len(fn.body) - len(body)
        fn.body = fn.body[:k] + pre + fn.body[k:]
        return len(use)


def asserts(s):
    """assert c, m  ->  if not c: raise AssertionError(m)"""
    if not isinstance(s, ast.Assert):
        return None
    r = _stmts('if not c:\n    raise AssertionError()', s)
    r[0].test.operand = s.test
    if s.msg is not None:
        r[0].body[0].exc.args = [s.msg]
    return r


class Fstr(_Tr):
    """'..{0}..'.format(a)  ->  f-string"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(
                f.value, ast.Constant) and isinstance(
                f.value.value, str) and not n.keywords and not any(
                isinstance(a, ast.Starred) for a in n.args):
            import string
            parts, k = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(
                    f.value.value):
                if lit:
                    parts.append(ast.Constant(lit))
                if fld is None:
                    continue
                if fld == '':
                    i = k
                    k += 1
                elif fld.isdigit():
                    i = int(fld)
                else:
                    return n
                if i >= len(n.args) or conv:
                    return n
                parts.append(ast.FormattedValue(
                    n.args[i], -1, ast.JoinedStr([ast.Constant(spec)])
                    if spec else None))
            return self.hit(ast.JoinedStr(parts), n)
        return n


class Chain(_Tr):
    """a < b < c  ->  a < b and b < c"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) < 2 or any(isinstance(x, ast.Call)
                                 for x in ast.walk(n)):
            return n
        l, vs = n.left, []
        for o, c in zip(n.ops, n.comparators):
            vs.append(ast.Compare(l, [o], [c]))
            l = c
        return self.hit(ast.BoolOp(ast.And(), vs), n)


class InTuple(_Tr):
    """x in (a, b)  ->  x == a or x == b"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(
                n.comparators[0], (ast.Tuple, ast.List)) and plain(
                n.left) and all(isinstance(x, ast.Constant) and isinstance(
                    x.value, (str, int)) for x in n.comparators[0].elts):
            return self.hit(ast.BoolOp(ast.Or(), [ast.Compare(
                n.left, [ast.Eq()], [x])
                for x in n.comparators[0].elts]), n)
        return n


class IsInst(_Tr):
    """isinstance(x, (a, b))  ->  isinstance(x, a) or isinstance(x, b)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                isinstance(n.args[1], ast.Tuple) and plain(n.args[0]):
            return self.hit(ast.BoolOp(ast.Or(), [ast.Call(
                n.func, [n.args[0], t], []) for t in n.args[1].elts]), n)
        return n


class Square(_Tr):
    """x ** 2  ->  x * x"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(
                n.right, ast.Constant) and n.right.value == 2 and not any(
                isinstance(x, ast.Call) for x in ast.walk(n.left)):
            return self.hit(ast.BinOp(n.left, ast.Mult(), n.left), n)
        return n


class Reduce(_Tr):
    """np.sum(x)  ->  x.sum()   (for names and attributes)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and f.value.id in ('np', '_np') and \
                f.attr in ('sum', 'max', 'min', 'any', 'all', 'mean') and \
                len(n.args) == 1 and plain(n.args[0]):
            return self.hit(ast.Call(ast.Attribute(
                n.args[0], f.attr, ast.Load()), [], n.keywords), n)
        return n


class Slice0(_Tr):
    """x[0:n]  ->  x[:n]  and back"""
    def visit_Slice(self, n):
        self.generic_visit(n)
        if isinstance(n.lower, ast.Constant) and n.lower.value == 0 and \
                n.step is None:
            self.n += 1
            n.lower = None
        elif n.lower is None and n.upper is not None and n.step is None:
            self.n += 1
            n.lower = ast.copy_location(ast.Constant(0), n)
        return n


class LenZero(_Tr):
    """len(x) == 0  ->  not len(x);  len(x) > 0  ->  len(x) != 0"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(
                n.left.func, ast.Name) and n.left.func.id == 'len' and \
                isinstance(n.comparators[0], ast.Constant):
            v = n.comparators[0].value
            if isinstance(n.ops[0], ast.Eq) and v == 0:
                return self.hit(ast.UnaryOp(ast.Not(), n.left), n)
            if isinstance(n.ops[0], ast.Gt) and v == 0:
                return self.hit(ast.Compare(n.left, [ast.NotEq()], [
                    ast.Constant(0)]), n)
            if isinstance(n.ops[0], ast.GtE):
                return self.hit(ast.Compare(n.left, [ast.Gt()], [
                    ast.Constant(v - 1)]), n)
        return n


class Recip(_Tr):
    """x / 2  ->  x * 0.5"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(
                n.right, ast.Constant) and n.right.value in (2, 4):
            return self.hit(ast.BinOp(n.left, ast.Mult(), ast.Constant(
                1 / n.right.value)), n)
        return n


class NegCmp(_Tr):
    """x is not None -> not x is None;  a != b -> not a == b"""
    MP = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.MP and not any(
                isinstance(x, ast.Attribute) and x.attr in (
                    'columns', 'index', 'values') for x in ast.walk(n)):
            if isinstance(n.ops[0], ast.NotEq) and ast.dump(
                    n.left) == ast.dump(n.comparators[0]):
                return n
            if isinstance(n.ops[0], ast.NotEq) and not any(
                    isinstance(c, ast.Constant) for c in [
                        n.left, n.comparators[0]]):
                return n
            return self.hit(ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [self.MP[type(n.ops[0])]()], n.comparators)), n)
        return n


def ifexp(s):
    """if c: x = a / else: x = b  ->  x = a if c else b"""
    if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(
            isinstance(b, ast.Assign) and len(b.targets) == 1 and plain(
                b.targets[0]) for b in (s.body[0], s.orelse[0])) and \
            ast.unparse(s.body[0].targets[0]) == ast.unparse(
                s.orelse[0].targets[0]):
        return [ast.Assign(s.body[0].targets, ast.IfExp(
            s.test, s.body[0].value, s.orelse[0].value))]
    return None


def default(s):
    """if c: x = a / else: x = b  ->  x = b; if c: x = a  (b simple)"""
    if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(
            s.orelse[0], ast.Assign) and len(s.orelse[0].targets) == 1 and \
            isinstance(s.orelse[0].value, ast.Constant) and isinstance(
                s.orelse[0].targets[0], ast.Name):
        x = s.orelse[0].targets[0].id
        if x in names(s.test):
            return None
        b = s.body
        if not (isinstance(b[-1], ast.Assign) and ast.unparse(
                b[-1].targets[0]) == x and x not in names(b[-1].value)):
            return None
        e = s.orelse[0]
        s.orelse = []
        return [e, s]
    return None


def conj(s):
    """if a: if b: X  ->  if a and b: X"""
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
            isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        return [ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]),
                       s.body[0].body, [])]
    return None


def multi(s):
    """a = b = v  ->  two assignments"""
    if isinstance(s, ast.Assign) and len(s.targets) > 1 and isinstance(
            s.value, ast.Constant):
        return [ast.Assign([t], s.value) for t in s.targets]
    return None


def flag(s):
    """if test: ..  ->  cond = test; if cond: .."""
    if isinstance(s, ast.If) and not any(isinstance(
            x, ast.NamedExpr) for x in ast.walk(s.test)):
        c = _nm('cond')
        r = [ast.Assign([ast.Name(c, ast.Store())], s.test)]
        s.test = ast.Name(c, ast.Load())
        return r + [s]
    return None


def retvar(s):
    """return e  ->  result = e; return result"""
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(
            s.value, (ast.Name, ast.Constant)):
        c = _nm('result')
        r = [ast.Assign([ast.Name(c, ast.Store())], s.value)]
        s.value = ast.Name(c, ast.Load())
        return r + [s]
    return None


def unaug(s):
    """x = x + v  ->  x += v  for locals bound to numbers (skipped: arrays)"""
    return None


def elseret(s):
    """if c: ..return / rest   ->   if c: ..return / else: rest"""
    return None


def inline(fn):
    """x = e; use(x)  ->  use(e) when x is used once, right afterwards"""
    cnt = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            cnt.setdefault(n.id, []).append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            return 0
    done = 0
    for n in ast.walk(fn):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            i = 0
            while i + 1 < len(b):
                a, u = b[i], b[i + 1]
                i += 1
                if not (isinstance(a, ast.Assign) and len(a.targets) == 1
                        and isinstance(a.targets[0], ast.Name)
                        and isinstance(u, (ast.Assign, ast.Return))):
                    continue
                x = a.targets[0].id
                if len(cnt[x]) != 2 or x not in names(u.value):
                    continue
                if isinstance(u, ast.Assign) and x in {
                        y for t in u.targets for y in names(t)}:
                    continue
                if any(isinstance(y, ast.Call) for y in ast.walk(u.value)) \
                        and any(isinstance(y, ast.Call)
                                for y in ast.walk(a.value)):
                    continue
                if any(isinstance(y, (ast.ListComp, ast.GeneratorExp,
                                      ast.DictComp, ast.IfExp, ast.BoolOp,
                                      ast.Lambda))
                       for y in ast.walk(u.value)):
                    continue

                class T(ast.NodeTransformer):
                    def visit_Name(self, y):
                        return a.value if y.id == x and isinstance(
                            y.ctx, ast.Load) else y
                u.value = T().visit(u.value)
                i -= 1
                del b[i]
                done += 1
    return done


def elsify(fn):
    """if c: return / rest  ->  if c: return / else: rest"""
    done = 0

    def go(b):
        nonlocal done
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                done += 1
                go(s.orelse)
                return
    go(fn.body)
    return done


def kwcalls(fn, module):
    """f(a, b)  ->  f(x=a, y=b) for functions of the module"""
    done = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in module.funcs and n.args and not any(
                    isinstance(a, ast.Starred) for a in n.args):
            a = module.funcs[n.func.id].node.args
            ps = [x.arg for x in a.args]
            if a.posonlyargs or a.vararg or len(ps) < len(n.args):
                continue
            n.keywords = [ast.keyword(p, v) for p, v in zip(
                ps, n.args)] + n.keywords
            n.args = []
            for k in n.keywords:
                ast.copy_location(k, n)
            done += 1
    return done


STMT = {'asserts': asserts, 'ifexp': ifexp, 'default': default,
        'conj': conj, 'multi': multi, 'flag': flag, 'retvar': retvar}
EXPR = {'fstr': Fstr, 'chain': Chain, 'intuple': InTuple, 'isinst': IsInst,
        'square': Square, 'reduce': Reduce, 'slice0': Slice0,
        'lenzero': LenZero, 'recip': Recip, 'negcmp': NegCmp}
KINDS = list(STMT) + list(EXPR) + ['alias', 'inline', 'elsify', 'kwcalls']


def apply(kind, fn, module):
    if kind in STMT:
        n = rewrite(fn, STMT[kind])
    elif kind in EXPR:
        t = EXPR[kind]()
        t.visit(fn)
        n = t.n
    elif kind == 'alias':
        n = Alias.run(fn)
    elif kind == 'inline':
        n = inline(fn)
    elif kind == 'elsify':
        n = elsify(fn)
    else:
        n = kwcalls(fn, module)
    ast.fix_missing_locations(fn)
    return n
