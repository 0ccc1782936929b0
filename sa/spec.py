"""Obligations: relate what the analysed source computes (value graph of an
entry point) to what a property requires (value graph of a required-behaviour
text), and report the construct that differs."""
import ast
import re
import textwrap
import time
from . import vg
from .vg import TRUE, FALSE, NONE, leaf, num, atom_fp, dd_fp
from .loader import AnalysisBroken, Func, Program
from . import interp as ip

KNOWN_OPS = {'sel', 'attr', 'param', 'str', 'None', 'tup', 'ref', 'arr', 'dd',
             'bdd', '+', '-', '*', '/', '**', 'pow', 'powv', 'len', 'shape',
             'pi', 'nan', 'inf', 'int', 'mod', 'floordiv', 'iota', 'phi',
             'loop', 'new', 'isnone', 'truth', 'in', 'isinst', '==', 'any',
             'round', 'global', 'undef', 'eff', 'emptydict', 'oattr', 'comp',
             'fconst', 'ite', 'isnan', 'const', 'strcat', 'fstr', 'strfmt',
             'call:str', 'typeof', 'last', 'o', 'flow', 'call:sorted', 'fancy',
             'instance', 'set', 'masked', 'pick', 'keys', 'todict', 'in',
             'deleted', 'astype'}
KNOWN_OPS |= {'np.' + x for x in (
    'sum', 'max', 'min', 'mean', 'exp', 'log', 'log10', 'sin', 'cos', 'tan',
    'tanh', 'floor', 'ceil', 'prod', 'isnan', 'argmax', 'argmin', 'std',
    'median')}
# these never leave every input as it was, and nothing else expresses them
KNOWN_OPS |= {'call:.' + x for x in (
    'fillna', 'ffill', 'bfill', 'dropna', 'interpolate', 'resample',
    'round', 'rolling', 'expanding', 'sort_values', 'sort_index', 'drop_duplicates')}
KNOWN_OPS |= {'np.' + x for x in ('sort', 'round', 'rint', 'around', 'trunc',
                                  'nan_to_num', 'unique', 'roll', 'flip')}


class KW(dict):
    """keyword arguments of an entry point: constants, or '#num' / '#any' for
    a symbolic value of that name"""

    def build(self, I, st):
        base = num(ip.EMPTYDICT)
        for k, v in self.items():
            v = v.build(I, st) if isinstance(v, KW) else self.val(k, v)
            base = ip.store_val(base, (('k', k),), v)
        return I.new_obj(st, base)

    def val(self, k, v):
        if isinstance(v, str) and v.startswith('#'):
            f = atom_fp('param', 'kw_' + k)
            if v == '#num':
                vg.SCALAR.add(f)
                ip.TYPES[f] = ('int', 'float')
            elif v != '#any':
                ip.TYPES[f] = (v[1:],)
            return num(f)
        if isinstance(v, vg.Val):
            return v
        if v is None:
            return NONE
        if isinstance(v, bool):
            return vg.boolv(v)
        if isinstance(v, str):
            return leaf('s', v)
        if isinstance(v, (tuple, list)):
            return leaf('t', type(v).__name__, tuple(
                self.val('%s_%d' % (k, i), x) for i, x in enumerate(v)))
        return vg.cnum(v)


def canon(a, p):
    """the names of *args and **kwargs are the function's own business"""
    if a.kwarg and a.kwarg.arg == p:
        return 'kwargs'
    if a.vararg and a.vararg.arg == p:
        return 'args'
    return p


class Run:
    def __init__(self, ctx, I, st, fn, cls, init_env, label):
        self.ctx, self.I, self.st, self.fn, self.cls = ctx, I, st, fn, cls
        self.init_env = init_env
        self.label = label

    def _eval(self, text, st):
        e = ast.parse(text, mode='eval').body
        self.I.stack.append((self.fn, None))
        try:
            return self.I.ev(e, st)
        finally:
            self.I.stack.pop()

    def get(self, text, strip=True):
        """final value of an expression over the entry's names"""
        if text == 'ret':
            return self.I.rv(self.st.ret, self.st)
        if text == 'exc':
            return self.st.exc
        st = self.st.copy()
        # parameters keep denoting the caller's objects
        for k, v in self.init_env.items():
            st.env[k] = v
        v = self._eval(text, st)
        return self.I.rv(v, st)

    def raw(self, text):
        st = self.st.copy()
        for k, v in self.init_env.items():
            st.env[k] = v
        return self._eval(text, st)

    def pre(self, text):
        """initial value of an expression"""
        st = ip.State()
        st.env.update(self.init_env)
        return self.I.rv(self._eval(text, st), st)

    def where(self, text):
        """source location of the last write of the location, if known"""
        if text not in ('ret', 'exc'):
            try:
                st = self.st.copy()
                for k, v in self.init_env.items():
                    st.env[k] = v
                e = ast.parse(text, mode='eval').body
                while isinstance(e, ast.Subscript):
                    e = e.value
                if isinstance(e, ast.Attribute):
                    b = self._eval(ast.unparse(e.value), st)
                    if b.atom is None:
                        k = ('b', self.I.ident(b, st), e.attr)
                        if k in self.st.wloc:
                            return self.st.wloc[k]
                v = self._eval(ast.unparse(e), st)
                for l in vg.leaves(v):
                    if l.p[0] == 'r' and ('h', l.p[1]) in self.st.wloc:
                        return self.st.wloc[('h', l.p[1])]
            except Exception:
                pass
        n = self.fn.node
        return (self.fn.module.path, getattr(n, 'lineno', 0),
                (self.fn.cls.name + '.' if self.fn.cls else '') + self.fn.name)


def fmt_loc(loc):
    return '{}:{} ({})'.format(loc[0], loc[1], loc[2])


def loop_domain(f):
    """what a loop runs over; a list the function itself has built counts as
    such, whatever it contains"""
    rg = ip.RANGES.get(f)
    if rg is not None and rg[0] is vg.VZERO and rg[1].atom is None and \
            rg[1].p[0] == 'n':
        n = vg.NODE.get(rg[1].p[1])
        if n is not None and n[0] == 'len':
            m = vg.NODE.get(n[1][0])
            if m is not None and m[0] in ('loop', 'comp', 'arr', 'rep', 'phi'):
                return 'built'
    return f


def loop_values(vals):
    """the sequences built up in loops that the values depend on"""
    out, seen = set(), set()
    st = [f for v in vals if isinstance(v, vg.Val) for f in vg.dd_fps(v)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in ip.LOOPS:
            out.add(x)
        n = vg.NODE.get(x) or vg.NODE.get((vg.P - x) % vg.P)
        if n is not None:
            st.extend(vg._flat(n[1]))
        for d in (vg.DDEXP, ip.ANYOF, ip.COMPIF):
            if x in d:
                st.extend(vg.dd_fps(d[x]))
    return out


def ops_in(v):
    """operator names and loop domains a value is built from"""
    ops, loops = set(), set()
    seen = set()
    st = list(vg.dd_fps(v)) if isinstance(v, vg.Val) else [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in ip.LOOPS:
            loops.add((ip.LOOPKIND[x], loop_domain(ip.LOOPS[x])))
        n = vg.NODE.get(x)
        if n is None:
            m = (vg.P - x) % vg.P
            if m in vg.NODE and m not in seen:
                st.append(m)
            continue
        ops.add(n[0])
        if x in vg.BLOWN:
            ops.add('blown!')
        if n[0] in ('sel', 'arr'):
            for k in (n[1][1:2] if n[0] == 'sel' else
                      [y[0] if isinstance(y, tuple) and y and isinstance(
                          y[0], tuple) else y for y in n[1][1:]]):
                if isinstance(k, tuple) and len(k) > 1 and k[0] == 'v' and \
                        not vg.is_scalar(k[1]):
                    ops.add('fancy')
        if n[0] in ('comp', 'loopexc', 'loopret', 'loopretval', 'last'):
            loops.add(('c', loop_domain(n[1][0])))
        if n[0] == 'ite':
            ops.add('ite!')
        st.extend(vg._flat(n[1]))
        if x in vg.DDEXP:
            st.extend(vg.dd_fps(vg.DDEXP[x]))
        if x in ip.ANYOF:
            st.extend(vg.dd_fps(ip.ANYOF[x]))
        if x in ip.COMPIF:
            st.extend(vg.dd_fps(ip.COMPIF[x]))
    return ops, loops


def bases(f):
    """the objects whose length bounds a range"""
    rg = ip.RANGES.get(f)
    if rg is None:
        return frozenset()
    out, st, seen = set(), [x for v in rg[:2] for x in vg.dd_fps(v)], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        n = vg.NODE.get(x)
        if n is None:
            continue
        if n[0] in ('len', 'shape', 'size', 'attr', 'param'):
            out.add(x)
            continue
        st.extend(vg._flat(n[1]))
    return frozenset(out)


def paired(fn):
    """an obligation relating a run of the code to one of the requirement"""
    def f(self, R, S, *a, **k):
        old, self._pair = self._pair, (R, S) if isinstance(S, Run) else None
        try:
            return fn(self, R, S, *a, **k)
        finally:
            self._pair = old
    f.__doc__ = fn.__doc__
    return f


class Ctx:
    _pair = None

    def restructured(self, m=None):
        """does the code go through its data with loops of another kind than
        the requirement?  (other bounds of the same range do not count)"""
        if self._pair is None:
            return None
        R, S = self._pair
        if m is not None and not any(has_iota(list(vg.dd_fps(v)))
                                     for v in (m.a, m.b)) and not any(
                has_iota([at[1]]) for at, _ in m.path):
            return None
        c = {loop_domain(x): x for x in R.I.domains}
        r = {loop_domain(x): x for x in S.I.domains}
        gone = [bases(r[x]) for x in r if x not in c]
        for x in c:
            if x not in r and not (c[x] in ip.RANGES and bases(c[x]) in gone):
                return 'different loop structure'
        return None

    def __init__(self, pid, prog=None, tier='quick', verbose=False):
        self.pid = pid
        self.prog = prog or Program()
        self.tier = tier
        self.verbose = verbose
        self.obs = []          # dicts
        self.funcs = set()
        self.stats = {'calls_inlined': 0, 'stores': 0, 'branches': 0,
                      'loops': 0}
        self.unknown = []
        self.cache = {}
        self.case_label = ''
        self.vocab = set()     # operations the requirements mention

    # ---------------------------------------------------------------- running
    def resolve(self, target):
        """'module:Class.method' | 'module:func'"""
        mod, nm = target.split(':')
        mod = 'multisim.' + mod if mod else 'multisim'
        if '.' in nm:
            c, m = nm.split('.')
            cls = self.prog.clsin(mod, c)
            f = cls.find(m)
            if f is None:
                # name-mangled private methods keep their source name
                raise AnalysisBroken('method {} is gone'.format(target))
            return f, cls
        return self.prog.func(mod, nm), None

    def interp(self, opts):
        return ip.Interp(self.prog, **opts)

    def preset(self, preset, st):
        """initial state with some attributes of self fixed"""
        if not preset:
            return st
        s = st or ip.State()
        for k, v in preset.items():
            s.bind[(atom_fp('param', 'self'), k)] = v
        return s

    def run(self, target, args=None, st=None, preset=None, **opts):
        f, cls = self.resolve(target)
        return self._run(f, cls, args, st, opts, target, preset)

    def _run(self, f, cls, args, st, opts, label, preset=None):
        I = self.interp(opts)
        vals = {}
        init_env = {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        s0 = self.preset(preset, st) or ip.State()
        for i, p in enumerate(names):
            if args and p in args:
                x = args[p]
                if isinstance(x, KW):
                    x = x.build(I, s0)
                elif callable(x):
                    x = x(I)
                vals[p] = x
            elif i == 0 and cls is not None and not f.is_static():
                vals[p] = I.selfval(cls)
            else:
                vals[p] = I.param(canon(a, p))
            init_env[p] = vals[p]
        r = I.run(f, cls, vals, s0)
        self.funcs |= I.funcs_seen
        self.stats['calls_inlined'] += I.n_calls
        self.stats['stores'] += I.n_stores
        self.stats['branches'] += I.n_branches
        self.stats['loops'] += I.n_loops
        if I.unknown:
            self.unknown += [fmt_loc(l) + ' ' + w for l, w in I.unknown]
        return Run(self, I, r, f, cls, init_env, label)

    def signs(self, target, exprs, only=None):
        """case split: run the caller's obligations once for every sign of
        the given initial-state values; yields a label per case"""
        import itertools
        vg.set_cases({})
        f, cls = self.resolve(target)
        I = self.interp({})
        st = ip.State()
        st.env['self'] = I.selfval(cls)
        atoms = []
        I.stack.append((f, None))
        for x in exprs:
            x, y = (x.split('|') + ['0'])[:2]
            u = I.rv(I.ev(ast.parse(x, mode='eval').body, st), st)
            v = I.rv(I.ev(ast.parse(y, mode='eval').body, st), st)
            at, o = vg.sgn_atom(vg.dd_fp(u), vg.dd_fp(v))
            atoms.append((at, o))
        I.stack.pop()
        try:
            for combo in itertools.product((-1, 0, 1), repeat=len(atoms)):
                if only is not None and combo not in only:
                    continue
                vg.set_cases({at: s * o + 1 for (at, o), s in
                              zip(atoms, combo)})
                self.case_label = '[' + ','.join(
                    '<=>'[s + 1] for s in combo) + ']'
                yield self.case_label
        finally:
            vg.set_cases({})
            self.case_label = ''

    def known(self, what):
        """case split: run the caller's obligations for an argument which is
        None and one which is not"""
        name = what.split()[0]
        f = vg.to_fp(leaf('n', ip.id_fp(('p', name))))
        at = vg.boolatom('isnone', f).atom
        try:
            for v in (0, 1):
                vg.set_cases({at: v})
                self.case_label = ' [%s%s]' % ('' if v else 'not: ', what)
                yield v
        finally:
            vg.set_cases({})
            self.case_label = ''

    def spec(self, text, like=None, module=None, cls=None, args=None, st=None,
             preset=None, drive=None, **opts):
        """evaluate a required-behaviour text (one or more defs; the last is
        the entry) in the name space of a module of the package"""
        t = ast.parse(textwrap.dedent(text))
        for n in ast.walk(t):
            if isinstance(n, ast.Call):
                m = getattr(n.func, 'id', None) or getattr(
                    n.func, 'attr', None)
                if m:
                    self.vocab |= {'call:' + m, 'call:.' + m, 'mut:' + m,
                                   'ret:' + m, 'call:numpy.' + m,
                                   'call:pandas.' + m, 'np.' + m}
        mod = self.prog.module('multisim.' + module) if module else \
            like.fn.module
        fns = {}
        last = None
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                fns[n.name] = Func(n, mod, like.fn.cls if like else None)
                last = n.name
        I = self.interp(opts)
        if like is not None:
            I.hints = like.I.looprecs
        f = fns[last]
        for k, x in fns.items():
            x.closure = {m: leaf('o', 'spec:' + m + ':%d' % id(y), y)
                         for m, y in fns.items()}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.kwarg:
            names.append(a.kwarg.arg)
        vals, init_env = {}, {}
        cls = cls or (like.cls if like else None)
        s0 = self.preset(preset, st) or ip.State()
        for i, p in enumerate(names):
            if args and p in args:
                x = args[p]
                if isinstance(x, KW):
                    x = x.build(I, s0)
                vals[p] = x(I) if callable(x) else x
            elif p == 'self' and cls is not None:
                vals[p] = I.selfval(cls)
            else:
                vals[p] = I.param(canon(a, p))
            init_env[p] = vals[p]
        s0 = s0.frame()
        s0.env.update(f.closure)
        s0.env.update(vals)
        I.stack.append((f, None))
        try:
            r = I.exec_block(f.node.body, s0)
        finally:
            I.stack.pop()
        isR = ip.flow_is(r.flow, ip.FR)
        r.ret = vg.ite(isR, r.ret, NONE)
        if drive:
            self.funcs |= I.funcs_seen
            self.stats['calls_inlined'] += I.n_calls
            self.stats['stores'] += I.n_stores
            self.stats['branches'] += I.n_branches
            self.stats['loops'] += I.n_loops
            self.unknown += [fmt_loc(l) + ' ' + w for l, w in I.unknown]
            return Run(self, I, r, f, cls, init_env, drive)
        if I.unknown:
            raise RuntimeError('required-behaviour text not understood: '
                               + str(I.unknown))
        return Run(self, I, r, f, cls, init_env, 'spec')

    def drive(self, target, text, **opts):
        """evaluate a use of the class: a history of calls of its methods,
        written as a function of self"""
        mod, nm = target.split(':')
        cls = self.prog.clsin('multisim.' + mod, nm)
        return self.spec(text, module=mod, cls=cls,
                         drive='{} ({})'.format(
                             target, ast.parse(textwrap.dedent(text))
                             .body[-1].name), **opts)

    def model(self, target, text, pre, **opts):
        """code and requirement on a model of fixed make-up: the statements
        `pre` put it together, then the method is called with its own
        parameters; loops over the model are gone through one by one"""
        f, cls = self.resolve(target)
        name = ast.parse(textwrap.dedent(text)).body[-1].name
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args][1:]
        kwo = [x.arg for x in a.kwonlyargs]
        call = ps + ['%s=%s' % (k, k) for k in kwo]
        body = 'def model(%s):\n' % ', '.join(['self'] + ps + kwo)
        body += textwrap.indent(textwrap.dedent(pre).strip('\n'), '    ')
        mod = target.split(':')
        where = ':'.join((mod[0], mod[1].split('.')[0]))
        # private names of the class, as inside of it
        text = re.sub(r'\bself\.__(?!\w*__\b)', 'self._%s__' % (
            mod[1].split('.')[0].lstrip('_')), text)
        R = self.drive(where, body + '\n    return self.%s(%s)\n' % (
            f.name, ', '.join(call)), **opts)
        S = self.drive(where, textwrap.dedent(text) + '\n' + body +
                       '\n    return %s(%s)\n' % (
                           name, ', '.join(['self'] + call)), **opts)
        R.label = S.label = target + ' on a model'
        return R, S

    # ------------------------------------------------------------ obligations
    def record(self, label, ok, detail='', loc=None, rule='value'):
        label += self.case_label
        self.obs.append({'label': label, 'status': ok, 'detail': detail,
                         'loc': fmt_loc(loc) if loc else '', 'rule': rule})
        if self.verbose and ok != 'discharged':
            print(ok, label, detail[:1500], loc)

    def undecidable(self, a, b):
        """does a difference between code value a and required value b rest on
        a construct outside the analysed fragment?"""
        if any(vg.tainted(f) for f in vg.dd_fps(a)):
            return 'uninterpreted construct'
        oa, la = ops_in(a)
        ob, lb = ops_in(b)
        extra = {o for o in oa - ob if o not in KNOWN_OPS and
                 o not in self.vocab}
        if extra:
            return 'external operation ' + ', '.join(sorted(extra)[:3])
        if 'ite!' in oa - ob or 'blown!' in oa | ob:
            return 'gating too large'
        if la != lb:
            # a loop that is simply gone, with nothing in its place
            if la < lb and not (oa - ob - {'sel', 'keys', 'iota', 'attr',
                                           'param'}):
                return self.restructured()
            return 'different loop structure'
        return None

    def equal(self, label, a, b, assume=TRUE, loc=None, rule='value',
              runs=None):
        try:
            m = vg.compare(a, b, assume)
            if m is not None and runs and runs[0].st.exc is not FALSE and \
                    runs[1].st.exc is not FALSE:
                # what is left behind when both raise does not matter
                m = vg.compare(a, b, vg.and_(assume, vg.not_(vg.and_(
                    runs[0].st.exc, runs[1].st.exc))))
        except vg.Blowup:
            self.record(label, 'undecided', 'gating too large', loc, rule)
            return False
        if m is None:
            self.record(label, 'discharged', '', loc, rule)
            return True
        why = self.undecidable(m.a, m.b) or self.undecidable(
            path_val(m), path_val(m, False))
        if why is None and (m.a.atom is None and m.b.atom is None):
            why = self.loops_mismatch(a, b, m) or self.restructured(m) or \
                self.other_filter(m, runs)
        self.record(label, 'undecided' if why else 'violated',
                    (why + ': ' if why else '') + m.text(), loc, rule)
        return False

    def other_filter(self, m, runs):
        """the same items, kept by what a different one of the required
        sequences holds: how two sequences relate is not decided here"""
        fs = [x.p[1] if x.p[0] == 'n' else None for x in (m.a, m.b)]
        ns = [vg.NODE.get(f) for f in fs]
        if not runs or not all(n is not None and n[0] == 'comp' and
                               f in ip.COMPIF for n, f in zip(ns, fs)):
            return None
        def source(x):
            y = vg.NODE.get(x) if isinstance(x, int) else None
            return y[1][0] if y is not None and y[0] == 'sel' else x
        va, vb = [[source(x) for x in vg._flat(n[1][1:2])] for n in ns]
        ca, cb = [ip.COMPIF[f] for f in fs]
        if va != vb or ca is cb:
            return None
        other = loop_values([ca]) - loop_values([cb])
        if other and other <= loop_values(
                [v for k in ('heap', 'bind')
                 for v in getattr(runs[1].st, k).values()]):
            return 'filtered by another sequence'
        return None

    def loops_mismatch(self, a, b, m):
        # path conditions built from loops the requirement does not have
        _, lb = ops_in(b)
        _, la = ops_in(a)
        for at, i in m.path:
            _, l = ops_in(at[1])
            if l - lb and at in vg.atoms_of(a) and at not in vg.atoms_of(b):
                return 'different loop structure'
            ops, _ = ops_in(at[1])
            ob, _ = ops_in(b)
            if 'blown!' in ops:
                return 'gating too large'
            if at in vg.atoms_of(a) and {
                    o for o in ops - ob if o not in KNOWN_OPS and
                    o not in self.vocab}:
                return 'external operation in condition'
            if vg.tainted(at[1]):
                return 'uninterpreted condition'
        return None

    @paired
    def same(self, R, S, exprs, assume=None, label=None, rule='value'):
        """final values of the expressions agree between code and spec"""
        g = TRUE
        if assume is not None:
            g = assume if isinstance(assume, vg.Val) else vg.truth(
                S.pre(assume))
        # values only matter where the code does not raise
        for x in exprs:
            a = R.get(x)
            b = S.get(x)
            self.equal('{}: {}'.format(label or R.label, x), a, b, g,
                       R.where(x), rule, (R, S))

    @paired
    def same_state(self, R, S, assume=TRUE, label=None, skip=()):
        """every field the requirement writes (of any object) ends up with
        the required value"""
        for kind in ('heap', 'bind'):
            want, got = getattr(S.st, kind), getattr(R.st, kind)
            for k in sorted((k for k in want if k[0] != 'N' and
                             k[0] != 'p'), key=repr):
                at = k[-1]
                if at in skip:
                    continue
                v = got.get(k)
                if v is None and not any(
                        x[-1] == at for y in (R.st.heap, R.st.bind)
                        for x in y):
                    why = self.restructured() if has_iota(k) else None
                    self.record('{}: {}'.format(label or R.label, at),
                                'undecided' if why else 'violated',
                                'never written', R.where('exc'))
                    continue
                if v is None:
                    v = vg.num(ip.id_fp(k)) if kind == 'heap' else \
                        leaf('r', ('a',) + k, ())
                base = k[1] if kind == 'heap' else k[0]
                self.equal('{}: {}.{}'.format(
                    label or R.label, vg.show_fp(base, 3), at),
                    R.I.rv(v, R.st), S.I.rv(want[k], S.st), assume,
                    R.st.wloc.get(('h', k) if kind == 'heap' else
                                  ('b',) + k, R.where('exc')), 'value',
                    (R, S))

    def shares(self, R, S, exprs, assume=None, label=None):
        """the expressions denote the same storage (a live view, not a copy)"""
        g = assume if assume is not None else TRUE
        for x in exprs:
            def loc(v):
                return vg.apply(lambda l: leaf('s', repr(l.p[1:]))
                                if l.p[0] == 'r' else (
                                    leaf('s', repr(l.p)) if l.p[0] == 'n'
                                    else l), v)
            a, b = R.raw(x), S.raw(x)
            m = None
            try:
                m = vg.compare(loc(a), loc(b), g)
            except vg.Blowup:
                self.record('{}: {} shared'.format(label or R.label, x),
                            'undecided', 'gating too large', R.where(x))
                continue
            fresh = m is not None and m.a.p[0] == 's' and \
                m.a.p[1].startswith("(('N'") and not (
                    m.b.p[0] == 's' and m.b.p[1].startswith("(('N'"))
            self.record('{}: {} shared'.format(label or R.label, x),
                        'discharged' if m is None else 'violated' if fresh
                        else self._shared(R, S, x, g), '' if m is None else
                        'a separate copy' if fresh else m.text(),
                        R.where(x), 'alias')

    def views(self, R, pairs, label=None):
        """x is a view of the storage of y: writes through one reach the
        other"""
        for x, y in pairs:
            a, b = R.raw(x), R.raw(y)
            lb = {l.p[1] if l.p[0] == 'r' else None for l in vg.leaves(b)}
            bad = [l for l in vg.leaves(a)
                   if l.p[0] != 'r' or l.p[1] not in lb or None in lb]
            self.record('{}: {} is a view of {}'.format(label or R.label, x,
                                                        y),
                        'violated' if bad else 'discharged',
                        'a separate object' if bad else '', R.where(x),
                        'alias')

    def apart(self, R, pairs, label=None):
        """x does not share storage with y: y changing leaves x as it was"""
        for x, y in pairs:
            lb = {l.p[1] for l in vg.leaves(R.raw(y)) if l.p[0] == 'r'}
            bad = [l for l in vg.leaves(R.raw(x))
                   if l.p[0] == 'r' and l.p[1] in lb]
            self.record('{}: {} is independent of {}'.format(
                label or R.label, x, y), 'violated' if bad else 'discharged',
                'the same storage' if bad else '', R.where(x), 'alias')

    def _shared(self, R, S, x, g):
        m = vg.compare(R.get(x), S.get(x), g)
        return 'discharged' if m is None else 'violated'

    def unchanged(self, R, exprs, label=None):
        for x in exprs:
            self.equal('{}: {} unchanged'.format(label or R.label, x),
                       R.get(x), R.pre(x), TRUE, R.where(x), 'frame')

    @paired
    def raises_when(self, R, S, label=None, rule='guard'):
        """every input the requirement rejects is rejected by the code"""
        g = S.st.exc if isinstance(S, Run) else S
        try:
            m = vg.satisfiable(vg.and_(g, vg.not_(R.st.exc)))
        except vg.Blowup:
            self.record(label or R.label, 'undecided', 'gating too large')
            return
        loc = R.where('exc')
        if m is None:
            self.record(label or R.label, 'discharged', '', loc, rule)
        else:
            why = None
            _, la = ops_in(R.st.exc)
            _, lb = ops_in(g)
            if la - lb:
                why = 'different loop structure'
            oa, _ = ops_in(R.st.exc)
            if any(vg.tainted(f) for f in vg.dd_fps(R.st.exc)):
                why = 'uninterpreted construct'
            if vg.BLOWN & set(vg.dd_fps(R.st.exc) + vg.dd_fps(g)):
                why = 'gating too large'
            self.record(label or R.label, 'undecided' if why else 'violated',
                        (why or '') + ' not rejected: ' + m.text(), loc, rule)

    def accepts(self, R, label=None):
        """the (valid) configuration is not rejected outright"""
        m = vg.satisfiable(vg.not_(R.st.exc))
        self.record((label or R.label) + ' accepted', 'violated' if m is None
                    else 'discharged', 'a valid configuration is always '
                    'rejected' if m is None else '', R.where('exc'), 'guard')

    def rejects(self, R, label=None):
        """the invalid configuration is rejected in every case"""
        m = vg.satisfiable(vg.not_(R.st.exc))
        why = None if m is None else self.foreign(R.st.exc)
        self.record((label or R.label) + ' rejected', 'discharged'
                    if m is None else 'undecided' if why else 'violated',
                    '' if m is None else (why + ': ' if why else '') +
                    'an invalid configuration is accepted: ' + m.text(),
                    R.where('exc'), 'guard')

    def foreign(self, v):
        """constructs outside the analysed fragment a condition rests on"""
        if any(vg.tainted(f) for f in vg.dd_fps(v)):
            return 'uninterpreted construct'
        ops, _ = ops_in(v)
        ops = {o for o in ops if o not in KNOWN_OPS and o not in self.vocab}
        if ops:
            return 'external operation ' + ', '.join(sorted(ops)[:3])

    def no_raise(self, R, when, label=None, rule='guard'):
        """inputs satisfying `when` (initial-state expression) are accepted"""
        g = when if isinstance(when, vg.Val) else vg.truth(R.pre(when))
        m = vg.satisfiable(vg.and_(g, R.st.exc))
        self.record(label or R.label + ' accepts', 'discharged' if m is None
                    else 'violated', '' if m is None else m.text(),
                    R.where('exc'), rule)

    def events(self, R, names):
        out = []
        for e in R.st.events:
            if opname(e) in names:
                out.append(e)
        return out

    @paired
    def same_calls(self, R, S, name, label=None):
        """the same operations happen, in any order"""
        def sig(e):
            return (len(e.loops), e.guard.h, tuple(a.h for a in e.args),
                    tuple(sorted((k, v.h) for k, v in e.kw.items())))
        a, b = self.events(R, [name]), self.events(S, [name])
        want = sorted(sig(e) for e in b)
        have = sorted(sig(e) for e in a)
        bad = [e for e in a if sig(e) not in want]
        lab = '{}: {}'.format(label or R.label, name)
        if want == have:
            self.record(lab, 'discharged', '', None, 'order')
        elif len(a) < len(b) and not bad:
            e = [e for e in b if sig(e) not in have] or b
            self.record(lab, 'violated', 'required {}({}) missing'.format(
                name, ', '.join(vg.show(x, 3) for x in e[0].args)),
                R.where('exc'), 'order')
        elif len(a) != len(b):
            self.record(lab, 'undecided', 'different number of operations',
                        R.where('exc'), 'order')
        else:
            m = [e for e in b if sig(e) not in have]
            e = (bad or a)[0]
            why = self.undecidable(e.args[0], m[0].args[0]) \
                if m and e.args else None
            self.record(lab, 'undecided' if why else 'violated', '{}({}) is '
                        'not among the required ones'.format(
                            name, ', '.join(vg.show(x, 3) for x in e.args)),
                        e.loc, 'order')

    @staticmethod
    def commutes(e, f, commute):
        return any(opname(e) in c and opname(f) in c for c in commute) and \
            opname(e) != opname(f)

    @paired
    def trace(self, R, S, names, label=None, with_args=True, assume=TRUE,
              commute=(), with_recv=()):
        """the guarded sequences of the named operations agree, up to the
        order of operations on exclusive branches and of those listed as
        independent"""
        a = self.events(R, names)
        b = self.events(S, names)
        lab = label or R.label
        n = len(self.obs)
        try:
            self._trace(R, a, b, lab, with_args, assume, commute, with_recv)
            if R.st.exc is not FALSE and S.st.exc is not FALSE and any(
                    o['status'] == 'violated' for o in self.obs[n:]):
                # what has been done when both raise does not matter
                kept = self.obs[n:]
                del self.obs[n:]
                try:
                    self._trace(R, a, b, lab, with_args, vg.and_(
                        assume, vg.not_(vg.and_(R.st.exc, S.st.exc))),
                        commute, with_recv)
                except vg.Blowup:
                    self.obs[n:] = kept
        except vg.Blowup:
            self.record(lab + ': trace', 'undecided', 'gating too large',
                        R.where('exc'), 'order')

    def _trace(self, R, a, b, lab, with_args, assume, commute, with_recv):
        # an operation of the code may serve for several required ones on
        # exclusive paths, and the other way round: guards are used up
        a = [[e, vg.and_(assume, e.guard)] for e in a]
        a = [x for x in a if vg.satisfiable(x[1]) is not None]
        whole = list(a)
        bad = False
        for i, y in enumerate(b):
            gy = vg.and_(assume, y.guard)
            while vg.satisfiable(gy) is not None:
                hit = block = None
                for k, (x, gx) in enumerate(a):
                    if opname(x) != opname(y) or len(x.loops) != len(y.loops):
                        continue
                    both = vg.and_(gx, gy)
                    if vg.satisfiable(both) is None:
                        continue
                    pre = [z for z, gz in a[:k] if not self.commutes(
                        x, z, commute) and vg.satisfiable(
                            vg.and_(both, gz)) is not None]
                    if not pre:
                        hit = k
                        break
                    block = block or pre[0]
                if hit is None:
                    alike = [x for x, _ in whole if opname(x) == opname(y)
                             and len(x.loops) == len(y.loops)]
                    lx = None
                    if not alike:
                        lx = [x for x, g in a if vg.satisfiable(
                            vg.and_(g, gy)) is not None]
                    if block is not None or lx:
                        x = block or lx[0]
                        why = self.restructured() if y.loops or x.loops \
                            else None
                        self.record(lab + ': trace', 'undecided' if why
                                    else 'violated',
                                    '{} (loop depth {}) where {} (loop depth '
                                    '{}) is required'.format(
                                        x.name, len(x.loops), y.name,
                                        len(y.loops)), x.loc, 'order')
                        return
                    if not alike:
                        why = self.restructured() if y.loops else None
                        self.record(lab + ': trace', 'undecided' if why
                                    else 'violated',
                                    'required operation {} missing'.format(
                                        y.name), R.where('exc'), 'order')
                        return
                    bad = True
                    g = FALSE
                    for x in alike:
                        g = vg.or_(g, x.guard)
                    if self.equal('{}: {} #{} condition'.format(
                            lab, y.name, i), vg.and_(g, gy), gy, assume,
                            alike[0].loc, 'order'):
                        self.record(lab + ': trace', 'violated', 'required '
                                    'operation {} missing: {}'.format(
                                        y.name, vg.satisfiable(gy).text()),
                                    R.where('exc'), 'order')
                    break
                x, gx = a[hit]
                both = vg.and_(gx, gy)
                self._event_args(lab, i, x, y, both, with_args, with_recv)
                a[hit][1] = vg.and_(gx, vg.not_(gy))
                gy = vg.and_(gy, vg.not_(gx))
                if vg.satisfiable(a[hit][1]) is None:
                    del a[hit]
        if bad:
            return
        for x, gx in a:
            g = FALSE
            for y in b:
                if opname(x) == opname(y) and len(x.loops) == len(y.loops):
                    g = vg.or_(g, y.guard)
            if self.equal('{}: {} condition'.format(lab, x.name), gx,
                          vg.and_(gx, g), assume, x.loc, 'order'):
                self.record(lab + ': trace', 'violated',
                            'additional operation {}'.format(x.name), x.loc,
                            'order')
        if not a:
            self.record(lab + ': nothing else', 'discharged', '',
                        R.where('exc'), 'order')

    def _event_args(self, lab, i, x, y, g, with_args, with_recv):
        if with_recv and opname(x) in with_recv:
            self.equal('{}: {} #{} object'.format(lab, y.name, i), x.recv,
                       y.recv, g, x.loc, 'order')
        if opname(x) == 'call:':
            self.equal('{}: callee #{}'.format(lab, i), x.recv, y.recv, g,
                       x.loc, 'order')
        if not with_args:
            self.record('{}: {} #{}'.format(lab, y.name, i), 'discharged', '',
                        x.loc, 'order')
            return
        if len(x.args) != len(y.args) or set(x.kw) != set(y.kw):
            self.record('{}: {} args'.format(lab, y.name), 'violated',
                        'argument lists differ', x.loc, 'order')
            return
        self.record('{}: {} #{}'.format(lab, y.name, i), 'discharged', '',
                    x.loc, 'order')
        for j, (u, v) in enumerate(zip(x.args, y.args)):
            self.equal('{}: {} #{} arg {}'.format(lab, y.name, i, j), u, v, g,
                       x.loc, 'order')
        for k in x.kw:
            self.equal('{}: {} #{} arg {}'.format(lab, y.name, i, k),
                       x.kw[k], y.kw[k], g, x.loc, 'order')


def has_iota(k):
    st, seen = [x for x in vg._flat([k])], set()
    while st:
        x = st.pop()
        n = vg.NODE.get(x)
        if n is None or x in seen:
            continue
        seen.add(x)
        if n[0] in ('iota', 'phi'):
            return True
        st.extend(vg._flat(n[1]))
        if x in vg.DDEXP:
            st.extend(vg.dd_fps(vg.DDEXP[x]))
    return False


def opname(e):
    return 'call:' if e.name.startswith('call:') else e.name.lstrip('.')


def path_val(m, code=True):
    return m.a if code else m.b
