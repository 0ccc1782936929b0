"""Sensitivity audit of a property's rule, on syntax trees held in memory (the
source under analysis is neither changed on disk nor run): (a) small semantic
edits of the analysed functions should break an obligation, (b) rewritings
that keep the meaning must leave every obligation discharged."""
import ast
import copy
import os
import random
import sys
import time
import multiprocessing as mp

CMP = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult}


def own_nodes(fn):
    """(node, parent, field, index) of the function body, docstrings and
    messages left out"""
    out = []

    def walk(n, skip=False):
        for f, v in ast.iter_fields(n):
            items = v if isinstance(v, list) else [v]
            for i, x in enumerate(items):
                if not isinstance(x, ast.AST):
                    continue
                if isinstance(n, ast.Assert) and f == 'msg':
                    continue
                if isinstance(n, ast.Raise):
                    continue
                if isinstance(x, ast.Expr) and isinstance(
                        x.value, ast.Constant):
                    continue
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id == 'print':
                    continue
                if isinstance(n, (ast.FunctionDef,)) and f != 'body':
                    continue
                out.append((x, n, f, i if isinstance(v, list) else None))
                walk(x)
    walk(fn)
    return out


def mutants(fn):
    """list of (description, apply()->undo())"""
    res = []
    for n, par, f, i in own_nodes(fn):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            def a(n=n):
                o = n.ops[0]
                n.ops[0] = CMP[type(o)]()
                return lambda: n.ops.__setitem__(0, o)
            res.append(('%d negate comparison' % ln, a))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str)) and 'err' not in ast.unparse(n):
            def a(n=n):
                o = n.op
                n.op = BIN[type(o)]()
                return lambda: setattr(n, 'op', o)
            res.append(('%d swap operator in %s' % (
                ln, ast.unparse(n)[:40]), a))
        if isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float)) and not isinstance(n.value, bool):
            def a(n=n):
                o = n.value
                n.value = o + 1 if isinstance(o, int) else o * 1.01 + 1e-3
                return lambda: setattr(n, 'value', o)
            res.append(('%d change constant %s' % (ln, n.value), a))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def a(n=n):
                o = n.value
                n.value = not o
                return lambda: setattr(n, 'value', o)
            res.append(('%d flip %s' % (ln, n.value), a))
        if isinstance(n, ast.BoolOp):
            def a(n=n):
                o = n.op
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                return lambda: setattr(n, 'op', o)
            res.append(('%d and/or' % ln, a))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert)) \
                and i is not None and isinstance(getattr(par, f), list) \
                and 'err_str' not in ast.unparse(n)[:12]:
            def a(n=n, par=par, f=f, i=i):
                getattr(par, f)[i] = ast.copy_location(ast.Pass(), n)
                return lambda: getattr(par, f).__setitem__(i, n)
            res.append(('%d drop %s' % (ln, ast.unparse(n)[:50]), a))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            def a(n=n):
                o = n.op
                n.op = ast.UAdd()
                return lambda: setattr(n, 'op', o)
            res.append(('%d drop minus' % ln, a))
    return res


# ------------------------------------------------------------ benign edits
class _Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mult, ast.Add)) and not any(
                isinstance(x, (ast.Constant, ast.JoinedStr)) and isinstance(
                    getattr(x, 'value', ''), str) for x in ast.walk(n)) and \
                'err' not in ast.unparse(n) and 'name' not in ast.unparse(n) \
                and not any(isinstance(x, (ast.Tuple, ast.List))
                            for x in ast.walk(n)):
            n.left, n.right = n.right, n.left
        return n


class _Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class _Temp(ast.NodeTransformer):
    """x = e  ->  tmp = e; x = tmp   (single names/attributes/subscripts)"""
    def __init__(self):
        self.k = 0

    def visit_Assign(self, n):
        if len(n.targets) != 1 or isinstance(
                n.targets[0], (ast.Tuple, ast.List)) or isinstance(
                    n.value, (ast.Constant,)):
            return n
        self.k += 1
        nm = '_tmp%d' % self.k
        a = ast.copy_location(ast.Assign(
            [ast.Name(nm, ast.Store())], n.value), n)
        n.value = ast.copy_location(ast.Name(nm, ast.Load()), n)
        return [ast.fix_missing_locations(a), ast.fix_missing_locations(n)]


class _Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = n.body[:1] + [ast.copy_location(
            ast.parse('_unused = None').body[0], n.body[0])] + n.body[1:]
        ast.fix_missing_locations(n)
        return n


class _Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id = n.id + '_r'
        return n


def rename(fn):
    a = fn.args
    par = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    if a.vararg:
        par.add(a.vararg.arg)
    if a.kwarg:
        par.add(a.kwarg.arg)
    st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
          isinstance(n.ctx, ast.Store)}
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            st -= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            return
    _Rename(st - par).visit(fn)


def extract(fn, module):
    """move the right-hand side of subscript/attribute assignments into module
    level helpers"""
    k = [0]
    nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda))
                 and n is not fn for n in ast.walk(fn))
    if nested:
        return
    a = fn.args
    loc = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
    if a.kwarg:
        loc.add(a.kwarg.arg)
    loc |= {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Store)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Subscript) and isinstance(
                    n.value, (ast.BinOp, ast.Call)):
            if any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp,
                                  ast.SetComp, ast.NamedExpr))
                   for x in ast.walk(n.value)) or 'super()' in ast.unparse(
                       n.value):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr.startswith('__')
                   for x in ast.walk(n.value)):
                continue
            free = sorted({x.id for x in ast.walk(n.value)
                           if isinstance(x, ast.Name)} & loc)
            k[0] += 1
            nm = '_x_{}_{}'.format(fn.name, k[0])
            d = ast.parse('def {}({}):\n    return 0'.format(
                nm, ', '.join(free))).body[0]
            d.body[0].value = n.value
            n.value = ast.copy_location(ast.parse('{}({})'.format(
                nm, ', '.join(free)), mode='eval').body, n)
            ast.fix_missing_locations(n)
            from .loader import Func
            module.funcs[nm] = Func(d, module)


class _Aug(ast.NodeTransformer):
    """a[i] += b  ->  a[i] = a[i] + b"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Subscript, ast.Attribute)) and not any(
                isinstance(x, ast.Call) for x in ast.walk(n.target)):
            if isinstance(n.target, ast.Attribute):
                return n
            load = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.fix_missing_locations(ast.copy_location(ast.Assign(
                [n.target], ast.copy_location(ast.BinOp(load, n.op, n.value),
                                              n)), n))
        return n


class _Ternary(ast.NodeTransformer):
    """x = a if c else b  ->  if c: x = a / else: x = b"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            t = ast.unparse(n.targets[0])
            new = ast.parse('if c:\n    {0} = 0\nelse:\n    {0} = 0'.format(
                t)).body[0]
            new.test = n.value.test
            new.body[0].value = n.value.body
            new.orelse[0].value = n.value.orelse
            for x in (new, new.body[0], new.orelse[0]):
                ast.copy_location(x, n)
            return ast.fix_missing_locations(new)
        return n


class _Nest(ast.NodeTransformer):
    """if a and b: X  ->  if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And):
            inner = n.body
            for c in reversed(n.test.values):
                inner = [ast.copy_location(ast.If(c, inner, []), n)]
            return inner[0]
        return n


class _DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.copy_location(ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values])),
                n.test)
            ast.fix_missing_locations(n)
        return n


def _names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (
        ctx is None or isinstance(x.ctx, ctx))}


def early(fn):
    """trailing if/else  ->  if: ..; return  + rest"""
    l = fn.body[-1]
    if isinstance(l, ast.If) and l.orelse and not any(isinstance(
            x, ast.Return) for x in ast.walk(fn)):
        rest = l.orelse
        l.orelse = []
        l.body = l.body + [ast.copy_location(ast.Return(None), l)]
        fn.body = fn.body + rest


def reorder(fn):
    """swap neighbouring independent assignments"""
    def simple(s):
        return isinstance(s, ast.Assign) and not any(isinstance(
            x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr))
            for x in ast.walk(s))

    def writes(s):
        r = set()
        for t in s.targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    r.add(x.id)
                elif isinstance(x, ast.Attribute):
                    r.add('.' + x.attr)
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.value, ast.Name):
                    r.add(x.value.id)
        return r

    def uses(s):
        r = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                r.add(x.id)
            elif isinstance(x, ast.Attribute):
                r.add('.' + x.attr)
        return r
    for n in ast.walk(fn):
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if simple(x) and simple(y) and not any(
                        isinstance(t, ast.Subscript) for s in (x, y)
                        for t in s.targets) and not (
                        writes(x) & uses(y) or writes(y) & uses(x)):
                    b[i], b[i + 1] = y, x
                    i += 2
                else:
                    i += 1


KB = [0]


def blocks(fn, module, cls=None):
    """move the bodies of ifs and loops into module level helpers"""
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn
           for n in ast.walk(fn)):
        return
    a = fn.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg or a.kwarg:
        return
    stores = _names(fn, ast.Store) | set(params)
    k = KB

    def ok(b):
        for s in b:
            for x in ast.walk(s):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue,
                                  ast.Yield, ast.Global, ast.Nonlocal,
                                  ast.With, ast.Try)):
                    return False
                if isinstance(x, ast.Name) and x.id == 'super':
                    return False
                if isinstance(x, ast.Attribute) and x.attr.startswith('__'):
                    return False
        return True
    from .loader import Func
    order = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.For))]
    done = set()
    for n in order:
        if id(n) in done:
            continue
        if isinstance(n, ast.If) and n.body and isinstance(
                n.body[0], ast.Raise):
            continue
        if not ok(n.body):
            continue
        loc_w = set()
        for s in n.body:
            loc_w |= _names(s, ast.Store)
        free = sorted({x for s in n.body for x in _names(s)} & stores)
        # locals read before definitely assigned cannot be passed: only use
        # blocks whose free names are certainly bound
        before = set(params)
        bound = _bound(fn, n)
        if bound is None:
            continue
        args = [x for x in free if x in bound]
        if any(x not in bound and x not in loc_w for x in free):
            continue
        # everything written must be returned if used elsewhere
        k[0] += 1
        nm = '_b_{}_{}'.format(fn.name, k[0])
        outs = sorted(x for x in loc_w)
        d = ast.parse('def {}({}):\n    pass'.format(nm, ', '.join(args))
                      ).body[0]
        if any(not _sure(n.body, x) and x not in bound for x in outs):
            continue
        ret = '    return ({},)'.format(', '.join(outs)) if outs else None
        d.body = list(n.body)
        if outs:
            d.body.append(ast.parse('return ({},)'.format(', '.join(
                outs))).body[0])
        call = '{}({})'.format(nm, ', '.join(args))
        new = ast.parse(('({},) = '.format(', '.join(outs)) if outs else '')
                        + call).body[0]
        for x in ast.walk(new):
            ast.copy_location(x, n)
        for s in n.body:
            for x in ast.walk(s):
                done.add(id(x))
        n.body = [new]
        ast.fix_missing_locations(d)
        module.funcs[nm] = Func(d, module)


def _sure(body, x):
    """name certainly assigned by the statement list"""
    for s in body:
        if isinstance(s, ast.Assign) and any(
                x in _names(t, ast.Store) for t in s.targets):
            return True
        if isinstance(s, ast.If) and s.orelse and _sure(
                s.body, x) and _sure(s.orelse, x):
            return True
    return False


def _bound(fn, node):
    """names certainly bound before `node` in fn"""
    a = fn.args
    res = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    def go(body, have):
        have = set(have)
        for s in body:
            if s is node:
                if isinstance(s, ast.For):
                    have |= _names(s.target, ast.Store)
                return have
            sub = []
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    sub.append(b)
            for b in sub:
                h = set(have)
                if isinstance(s, ast.For):
                    h |= _names(s.target, ast.Store)
                r = go(b, h)
                if r is not None:
                    return r
            for x in _names(s, ast.Store):
                if _sure([s], x):
                    have.add(x)
        return None
    return go(fn.body, res)


BENIGN = ['commute', 'flip', 'temp', 'noop', 'rename', 'extract', 'aug',
          'ternary', 'nest', 'demorgan', 'early', 'reorder', 'blocks',
          'while', 'enum', 'items', 'toitems', 'list', 'guard', 'unguard',
          'comp', 'filter', 'anyall', 'zip', 'tuple', 'get', 'uncomp',
          'asserts', 'ifexp', 'default', 'conj', 'multi', 'flag', 'retvar',
          'fstr', 'chain', 'intuple', 'isinst', 'square', 'reduce', 'slice0',
          'lenzero', 'recip', 'negcmp', 'alias', 'inline', 'elsify',
          'kwcalls']


def benign(kind, fn, module):
    from . import idioms, loops
    if kind in loops.KINDS:
        return loops.apply(kind, fn)
    if kind in idioms.KINDS:
        return idioms.apply(kind, fn, module)
    if kind in ('aug', 'ternary', 'nest', 'demorgan'):
        {'aug': _Aug, 'ternary': _Ternary, 'nest': _Nest,
         'demorgan': _DeMorgan}[kind]().visit(fn)
    elif kind == 'early':
        early(fn)
    elif kind == 'reorder':
        reorder(fn)
    elif kind == 'blocks':
        blocks(fn, module)
    elif kind == 'commute':
        _Commute().visit(fn)
    elif kind == 'flip':
        _Flip().visit(fn)
    elif kind == 'temp':
        _Temp().visit(fn)
    elif kind == 'noop':
        _Noop().visit(fn)
    elif kind == 'rename':
        rename(fn)
    elif kind == 'extract':
        extract(fn, module)
    ast.fix_missing_locations(fn)


# ------------------------------------------------------------------ driver
def find_nodes(prog, quals):
    out = []
    for m in prog.modules.values():
        for f in m.funcs.values():
            if f.qual in quals:
                out.append(f)
        for c in m.classes.values():
            for f in c.methods.values():
                if f.qual in quals:
                    out.append(f)
    return out


def _judge(pid):
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    import check
    from .loader import AnalysisBroken
    try:
        ctx, _ = check.decide(pid, PROG)
    except AnalysisBroken as e:
        return 'broken', str(e)
    v = [o for o in ctx.obs if o['status'] == 'violated']
    if v:
        return 'violated', v[0]['label']
    u = [o for o in ctx.obs if o['status'] == 'undecided']
    if u:
        return 'undecided', u[0]['label'] + ' ' + u[0]['detail'][:100]
    return 'quiet', ''


PROG = None


def _work(task):
    kind, pid, i, j, limit = task
    r, w = os.pipe()
    k = os.fork()
    if k == 0:
        import signal
        signal.alarm(limit)
        os.close(r)
        try:
            f = FUNCS[i]
            if kind == 'mut':
                mutants(f.node)[j][1]()
            elif j.startswith('all:'):
                for g in FUNCS:
                    benign(j[4:], g.node, g.module)
            else:
                benign(j, f.node, f.module)
            res = _judge(pid)
        except BaseException as e:
            res = ('error', type(e).__name__ + ' ' + str(e)[:100])
        os.write(w, (res[0] + '\t' + res[1].replace('\n', ' ')).encode()[
            :3000])
        os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(k, 0)
    s = b.decode().split('\t', 1) if b else ['timeout', '']
    return task, s[0], s[1] if len(s) > 1 else ''


FUNCS = []


def audit(pid, mod, prog=None, n=60, seed=None, limit=120, budget=600,
          procs=8, quiet=True, only=None, kinds=None):
    global PROG, FUNCS
    from .loader import Program
    PROG = prog or Program()
    import check
    ctx, _ = check.decide(pid, PROG)
    FUNCS = find_nodes(PROG, ctx.funcs)
    if only:
        FUNCS = [f for f in FUNCS if any(o in f.qual for o in only)]
    allm = [('mut', pid, i, j, limit) for i, f in enumerate(FUNCS)
            for j in range(len(mutants(f.node)))]
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1)
                        if seed is None else seed)
    rnd.shuffle(allm)
    tasks = allm[:n] if n else allm
    if kinds is None:
        tasks += [('ben', pid, 0, 'all:' + k, limit * 3) for k in BENIGN]
    elif kinds:
        tasks += [('ben', pid, i, k, limit) for k in kinds
                  for i in range(len(FUNCS))]
    out = {'violated': [], 'undecided': [], 'quiet': [], 'broken': [],
           'error': [], 'timeout': []}
    ben = {}
    t0 = time.time()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(procs) as ex:
        for task, st, why in ex.map(
                lambda t: _work(t) if time.time() - t0 < budget else
                (t, 'skipped', ''), tasks):
            if st == 'skipped':
                continue
            f = FUNCS[task[2]]
            if task[0] == 'mut':
                d = f.qual + ' ' + mutants(f.node)[task[3]][0]
                out[st].append((d, why))
            else:
                ben[(f.qual if not str(task[3]).startswith('all') else '') +
                    str(task[3])] = (st, why)
    tot = sum(len(v) for v in out.values())
    return {
        'sensitivity_mutants': tot,
        'sensitivity_detected': len(out['violated']) + len(out['broken']),
        'sensitivity_undecided': len(out['undecided']) + len(
            out['timeout']) + len(out['error']),
        'sensitivity_survivors': [d for d, _ in out['quiet']],
        'sensitivity_undecided_list': [
            d + ' :: ' + w for d, w in out['undecided'] + out['error'] +
            out['timeout']],
        'meaning_preserving_edits': {k: v[0] + (' ' + v[1] if v[1] else '')
                                     for k, v in ben.items()},
    }


if __name__ == '__main__':
    import json
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    sys.setrecursionlimit(20000)
    from sa import audit as A
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    r = A.audit(pid, None, n=n, only=only)
    print(json.dumps(r, indent=1))
