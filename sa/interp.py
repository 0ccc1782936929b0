"""Gated value-flow construction: a syntax-directed dataflow pass that assigns
a canonical value (vg.Val) to every memory location a function writes, merging
(not enumerating) control-flow joins with gating conditions, summarising loops
by canonical recurrences and inlining resolved callees."""
import ast
import copy
import builtins
import re
import string
from . import vg
from .vg import (num, leaf, cnum, TRUE, FALSE, NONE, VZERO, atom_fp, H, ite,
                 and_, or_, not_, cmp_, truth, boolatom, boolv, to_fp, dd_fp,
                 apply, safe_apply, Val)
from .loader import Func, Class, Module, AnalysisBroken

FULL = ('sl', None, None, None)
MASK = {}      # hash -> Val (boolean diagram used as array mask)
ELEMWISE = {'np.exp', 'np.log', 'np.log10', 'np.sin', 'np.cos', 'np.tan',
            'np.tanh', 'np.arctan', 'np.floor', 'np.ceil', 'np.round',
            'np.sinh', 'np.cosh', 'pow', 'powv', '+', '-', '*', '/', '**',
            'mod', 'floordiv', 'np.log2', 'np.expm1', 'np.log1p'}
REDUCE = {'sum', 'max', 'min', 'mean', 'prod', 'std', 'argmax', 'argmin',
          'median', 'cumsum', 'diff', 'var'}


# ---------------------------------------------------------------- selectors
def key_const(k):
    return k[0] in ('i', 'k') or (k[0] == 'sl' and all(
        x is None or isinstance(x, int) for x in k[1:]))


def compose(k1, k2):
    """x[k1][k2] == x[k] for simple selectors, else None"""
    if k1 == FULL:
        return k2
    if k2 == FULL and k1[0] in ('sl',):
        return k1
    if k1[0] == 'sl' and k1[3] is None and k2[0] in ('sl', 'i') and \
            key_const(k1) and key_const(k2):
        a, b = k1[1], k1[2]
        if k2[0] == 'i' and b is not None and b > 0 and (a or 0) >= 0 and \
                -(b - (a or 0)) <= k2[1] < b - (a or 0):
            return ('i', k2[1] + ((a or 0) if k2[1] >= 0 else b))
        if (a is not None and a < 0) or (b is not None and b > 0):
            return None
        a = a or 0
        if k2[0] == 'i':
            if k2[1] >= 0:
                return ('i', a + k2[1])
            return ('i', (b or 0) + k2[1])
        c, d, s = k2[1:]
        if (c is not None and c < 0) or (d is not None and d > 0):
            return None
        lo = a + (c or 0)
        hi = (b or 0) + (d or 0)
        return ('sl', lo or None, hi or None, s)
    return None


def disjoint(k1, k2):
    if k1 == k2:
        return False
    t1, t2 = k1[0], k2[0]
    if t1 == 'k' and t2 == 'k':
        return k1[1] != k2[1]
    if t1 == 'tu' and t2 == 'tu' and len(k1) == len(k2):
        return any(disjoint(a, b) for a, b in zip(k1[1:], k2[1:]))
    if t1 == 'tu' and t2 in ('i', 'sl'):
        return disjoint(k1[1], k2)
    if t2 == 'tu' and t1 in ('i', 'sl'):
        return disjoint(k1, k2[1])
    if t1 == 'v' and t2 == 'v' and isinstance(k1[1], int) and \
            isinstance(k2[1], int):
        # indices a known non-zero distance apart
        return vg.CONST.get((k1[1] - k2[1]) % vg.P, 0) != 0
    if t1 == 'i' and t2 == 'i':
        if {k1[1], k2[1]} == {0, -1}:
            return True     # assumption: at least two cells / two ports
        return (k1[1] >= 0) == (k2[1] >= 0) and k1[1] != k2[1]
    if t1 == 'sl' and t2 == 'i':
        k1, k2, t1, t2 = k2, k1, t2, t1
    if t1 == 'i' and t2 == 'sl' and key_const(k2):
        i, (a, b, s) = k1[1], k2[1:]
        if s is not None and s > 1:
            a0 = a or 0
            return i >= 0 and a0 >= 0 and (i - a0) % s != 0
        if i >= 0:
            if a is not None and a >= 0 and i < a:
                return True
            if b is not None and b >= 0 and i >= b:
                return True
        else:
            if b is not None and b < 0 and i >= b:
                return True
            if a is not None and a < 0 and i < a:
                return True
        return False
    if t1 == 'sl' and t2 == 'sl' and key_const(k1) and key_const(k2):
        a, b, s = k1[1:]
        c, d, t = k2[1:]
        if s is not None and s == t and s > 1:
            return ((a or 0) - (c or 0)) % s != 0 and (a or 0) >= 0 and (
                c or 0) >= 0
        if s is None and t is None:
            for (lo, hi) in ((b, c), (d, a)):
                if lo is not None and hi is not None and (
                        (lo >= 0) == (hi >= 0)) and lo <= hi:
                    return True
    return False


def covers(k1, k2):
    """selector k1 certainly includes everything selected by k2"""
    if k1 == k2 or k1 == FULL:
        return True
    if k1[0] == 'tu' and k2[0] == 'tu' and len(k1) == len(k2):
        return all(covers(a, b) for a, b in zip(k1[1:], k2[1:]))
    if k1[0] == 'i' and k2[0] == 'tu':
        return covers(k1, k2[1])
    if k1[0] == 'sl' and k2[0] == 'i' and key_const(k1) and k2[1] >= 0 and \
            k1[3] is None:
        a, b = k1[1] or 0, k1[2]
        return 0 <= a <= k2[1] and (b is None or b > k2[1])
    return False


def short_slice(k):
    """indices selected by a short constant slice from the front, or None"""
    if k[0] == 'sl' and key_const(k) and k[3] is None and k[2] is not None:
        a, b = k[1] or 0, k[2]
        if 0 <= a < b <= a + 6:
            return range(a, b)
    return None


def const_value(v):
    if v.atom is None and v.p[0] == 'n':
        return vg.CONST.get(v.p[1])
    return None


def const_len(f):
    """length of an element-wise expression over short constant slices"""
    if vg.is_scalar(f):
        return 0
    n = vg.NODE.get(f)
    if n is None:
        return None
    op, args = n
    if op == 'sel':
        r = short_slice(args[1])
        return len(r) if r is not None else None
    if op in ('+', '-', '*', '/', '**', 'pow', 'powv') or op in ELEMWISE:
        ls = {const_len(a) for a in args if isinstance(a, int) and
              not (op == 'pow' and a is args[1])}
        ls.discard(0)
        return ls.pop() if len(ls) == 1 else None
    return None


_selmemo = {}


WEAK = set()     # single rows/elements: scalars unless indexed directly


def entry_array(st, oid, path):
    """the place of item[k][...], item being one gone through: an entry of
    the array which the item holds"""
    if oid[0] == 'v' and len(path) > 1 and path[0][0] == 'i' and \
            isinstance(path[0][1], int) and oid not in st.heap:
        op, a = vg.NODE.get(oid[1], ('', ()))
        if op == 'sel' and a[1][0] == 'v' and vg.NODE.get(
                a[1][1], ('',))[0] == 'iota':
            return ('v', n_sel(oid[1], path[0], True)), path[1:]
    return oid, path


def n_sel(f, key, top=False):
    if key == FULL:
        return f
    if top and f in WEAK:
        top = 1
    elif vg.is_scalar(f) and key[0] in ('i', 'sl', 'v', 'tu', 'm', 'nx'):
        return f
    mk = (f, key, top if f in WEAK else False)
    r = _selmemo.get(mk)
    if r is not None:
        return r
    n = vg.NODE.get(f)
    r = None
    if n is not None and key[0] != 'k':
        op, args = n
        if op == 'comp':
            r = comp_item(f, key)
        if op in ('+', '-', '*', '/', '**'):
            a, b = n_sel(args[0], key), n_sel(args[1], key)
            r = {'+': vg.n_add, '-': vg.n_sub, '*': vg.n_mul, '/': vg.n_div,
                 '**': vg.n_pow}[op](a, b)
        elif op == 'pow':
            r = vg.n_pow(n_sel(args[0], key), vg.cfp(vg.Fraction(args[1])))
        elif op == 'powv':
            r = vg.n_pow(n_sel(args[0], key), n_sel(args[1], key))
        elif op in ELEMWISE:
            r = atom_fp(op, *[n_sel(a, key) if isinstance(a, int) else a
                              for a in args])
        elif op == 'shape' and key == ('i', 0):
            r = atom_fp('len', args[0], scalar=True)
        elif op == 'sel' and args[1][0] != 'k':
            k = compose(args[1], key)
            if k is not None:
                r = n_sel(args[0], k, top)
        elif op == 'dd' and f in vg.DDEXP:
            v = sel_dd(vg.DDEXP[f], key)
            r = dd_fp(v)
        elif op == 'arr' and key[0] in ('i', 'v'):
            for j in range(len(args) - 2, 0, -2):
                kk = args[j]
                if kk == key:
                    r = args[j + 1]
                    break
                if not disjoint(kk, key):
                    break
            else:
                r = n_sel(args[0], key, top)
        elif op == 'tup' and key[0] == 'i' and -len(args) <= key[1] < len(
                args):
            r = args[key[1]]
    if r is None:
        r = atom_fp('sel', f, key)
        if key[0] in ('i', 'k') or (key[0] == 'v' and key[1] in vg.SCALAR):
            if key[0] != 'k':
                if r not in vg.SCALAR:
                    vg.SCALAR.add(r)
                    WEAK.add(r)
    _selmemo[mk] = r
    return r


vg.N_SEL[0] = n_sel
vg.DISJ[0] = disjoint


TESTED = set()   # quantities a Python branch tests: single numbers


def tested(c):
    for a in vg.atoms_of(c):
        if a[0] == 's':
            TESTED.add(a[1])
        else:
            TESTEDB.add(a)


TESTEDB = set()
LOCATORS = ('loc', 'iloc', 'at', 'iat')     # of a pandas table


def tag(*parts):
    """name made of values and other names"""
    f = H('tag', *[x.h if isinstance(x, Val) else x for x in parts])
    vg.TAGS[f] = parts
    return f


def spread(f, vals):
    """operation on whole values, carried out in each case of the branches
    which lead to them"""
    n, split = 1, []
    for i, v in enumerate(vals):
        if v.atom is None:
            continue
        at = vg.atoms_of(v)
        k = len(vg.leaves(v))
        if n * k <= 12 and len(at) <= 6 and all(
                a in TESTEDB or (a[1] in TESTED if a[0] == 's' else False)
                for a in at):
            split.append(i)
            n *= k
    if not split:
        return f([dd_fp(v) for v in vals])

    def g(*ls):
        fps = [None if i in split else dd_fp(v) for i, v in enumerate(vals)]
        for i, l in zip(split, ls):
            fps[i] = to_fp(l)
        return f(fps)
    return safe_apply(g, *[vals[i] for i in split])


def sel_dd(v, key):
    if v.atom is None:
        return select_val(v, key)
    kids = [sel_dd(k, key) for k in v.kids]
    if v.atom[0] == 's' and v.atom[1] not in TESTED:
        f = n_sel(v.atom[1], key)
        atom, o = vg.sgn_atom(f, vg.ZERO)
        if atom is None:
            return kids[o + 1]
        return vg._sel3(atom, o, *kids)
    return vg.case(v.atom, kids)


def select_val(v, key):
    """pure selection on a ref-free value"""
    if key[0] == 'm':
        # elements outside the mask are not part of the selection
        return ite(MASK[key[1]], v, OUT)
    if v.atom is not None:
        # element-wise data under array conditions: index the conditions too
        return sel_dd(v, key)
    p = v.p
    k = p[0]
    if k == 't':
        if key[0] == 'i' and -len(p[2]) <= key[1] < len(p[2]):
            return p[2][key[1]]
        if key[0] == 'sl' and key_const(key):
            return leaf('t', p[1], tuple(p[2][slice(*key[1:])]))
        if key[0] == 'k':
            return num(n_sel(to_fp(v), key, True))
        return num(n_sel(to_fp(v), key, True))
    if k == 'arr':
        r = short_slice(key)
        if r is not None:
            xs = [select_val(v, ('i', i)) for i in r]
            if all(x is xs[0] for x in xs) and all(
                    l.p[0] == 'n' and vg.is_scalar(l.p[1])
                    for l in vg.leaves(xs[0])) and all(
                        any(kk == ('i', i) for kk, _ in p[2]) for i in r):
                return xs[0]
        for kk, x in reversed(p[2]):
            if kk == key:
                return x
            if disjoint(kk, key):
                continue
            if kk[0] == 'sl' and key[0] in ('i', 'sl', 'v'):
                if x.atom is None and x.p[0] == 'n' and vg.is_scalar(x.p[1]) \
                        and kk == FULL:
                    return x
            return num(n_sel(to_fp(v), key, True))
        if p[1] == EMPTYDICT:
            return num(n_sel(to_fp(v), key, True))
        return num(n_sel(p[1], key, True))
    if k == 'b' and key[0] in ('i', 'sl', 'v', 'tu'):
        return v
    return num(n_sel(to_fp(v), key, True))


EMPTYDICT = atom_fp('emptydict')


def lookup(d, key, st):
    """value of a literal table of functions at an unknown key"""
    if key[0] != 'v' or d.atom is not None or d.p[0] != 'arr' or \
            d.p[1] != EMPTYDICT or not 0 < len(d.p[2]) <= 12 or \
            key[1] in vg.DDEXP:
        return None
    ks = [k for k, _ in d.p[2]]
    if len(set(ks)) < len(ks) or any(k[0] not in 'ik' for k in ks) or not all(
            l.p[0] == 'o' for _, v in d.p[2] for l in vg.leaves(v)):
        return None
    # an unknown key raises
    r, known = None, FALSE
    for k, v in d.p[2]:
        c = vg.cmp_('==', num(key[1]),
                    leaf('s', k[1]) if k[0] == 'k' else cnum(k[1]))
        r = v if r is None else ite(c, v, r)
        known = vg.or_(known, c)
    st.exc = or_(st.exc, not_(known))
    return r


def is_dict(f):
    return f == EMPTYDICT or vg.NODE.get(f, ('',))[0] in ('todict',
                                                          'dictmerge')


def dict_merge(a, b):
    """a, updated by the entries of b"""
    def f(b):
        if b.p == ('n', EMPTYDICT):
            return a
        if b.p[0] == 'arr' and b.p[1] == EMPTYDICT:
            r = a
            for k, v in b.p[2]:
                r = store_val(r, (k,), v)
            return r
        if a is num(EMPTYDICT):
            return b
        return num(atom_fp('dictmerge', dd_fp(a), dd_fp(b)))
    return safe_apply(f, b)


OUT = num(atom_fp('masked'))
_outmemo = {OUT.p[1]: True}


def _has_out(f):
    r = _outmemo.get(f)
    if r is not None:
        return r
    _outmemo[f] = False
    n = vg.NODE.get(f)
    r = False
    if n is not None and n[0] not in ('np.sum', 'pick', 'np.max', 'np.min',
                                      'np.mean', 'sel', 'phi', 'loop'):
        r = any(_has_out(x) for x in vg._flat(n[1]))
    _outmemo[f] = r
    return r


def masked_out(v):
    for l in vg.leaves(v):
        if l.p[0] == 'n' and _has_out(l.p[1]):
            return True
    return False


def store_val(base, path, v):
    """functional update base[path] = v (all ref-free)"""
    path = norm_path(path)
    if not path:
        return v
    key = path[0]
    if len(path) > 1:
        inner = select_val(base, key)
        return store_val(base, (key,), store_val(inner, path[1:], v))
    if key == FULL:
        return v
    r = short_slice(key)
    if r is not None and all(
            l.p[0] == 'n' and vg.is_scalar(l.p[1]) for l in vg.leaves(v)):
        for i in r:
            base = store_val(base, (('i', i),), v)
        return base
    if key[0] == 'm':
        m = MASK[key[1]]
        if masked_out(ite(m, v, VZERO)):
            # selection by another mask: the selected elements as a whole
            v = num(atom_fp('pick', dd_fp(v), scalar=True))
        return ite(m, v, base)
    if base.atom is not None:
        try:
            return apply(lambda b: _store_leaf(b, key, v), base)
        except vg.Blowup:
            return _store_leaf(vg.wrap(base), key, v)
    return _store_leaf(base, key, v)


def _store_leaf(b, key, v):
    p = b.p
    if p[0] == 't' and key[0] == 'i' and -len(p[2]) <= key[1] < len(p[2]):
        l = list(p[2])
        l[key[1]] = v
        return leaf('t', p[1], tuple(l))
    if p[0] == 'arr':
        base, stores = p[1], [s for s in p[2] if not covers(key, s[0])]
    else:
        base, stores = to_fp(b), []
    # writing back the unchanged value is not a change
    stores.append((key, v))
    if all(disjoint(x[0], y[0]) for i, x in enumerate(stores)
           for y in stores[i + 1:]):
        stores.sort(key=lambda s: repr(s[0]))
        stores = [s for s in stores
                  if not (s[1].atom is None and s[1].p == (
                      'n', n_sel(base, s[0])))]
    if not stores:
        return num(base)
    return leaf('arr', base, tuple(stores))


def norm_path(path):
    out = []
    for k in path:
        if k == FULL and out:
            continue
        if out:
            c = compose(out[-1], k)
            if c is not None:
                out[-1] = c
                continue
        out.append(k)
    return tuple(out)


# -------------------------------------------------------------------- state
TYPES = {}     # value number -> names of the types it is known to have


def static_type(l):
    """type names a value is known to have, or None"""
    if l.atom is not None:
        return None
    p = l.p
    if p[0] == 's':
        return ('str',)
    if p[0] == 'b':
        return ('bool',)
    if p[0] == 't':
        return (p[1],)
    if p[0] == 'none':
        return ('NoneType',)
    if p[0] == 'n':
        if p[1] in vg.CONST:
            return ('int', 'float')
        return TYPES.get(p[1])
    return None


def isinst(l, t):
    k = static_type(l)
    if k is not None:
        nm = vg.show(t)
        for x in ('str', 'bool', 'tuple', 'list', 'int', 'float', 'dict'):
            if t.atom is None and t.p[0] == 'o' and t.p[1] == \
                    'ext:builtins.' + x:
                return boolv(x in k or (x == 'int' and 'bool' in k))
    return boolatom('isinst', to_fp(l), to_fp(t))


class Event:
    __slots__ = ('guard', 'name', 'recv', 'args', 'kw', 'loc', 'loops', 'nth')

    def __init__(self, guard, name, recv, args, kw, loc, loops=()):
        self.guard = guard
        self.name = name
        self.recv = recv
        self.args = args
        self.kw = kw
        self.loc = loc
        self.loops = loops

    def with_guard(self, g):
        e = Event(and_(g, self.guard), self.name, self.recv, self.args,
                  self.kw, self.loc, self.loops)
        return e

    def __repr__(self):
        return '<{} {} {}({}) {}>'.format(
            self.loc, vg.show(self.guard, 3), self.name,
            ', '.join(vg.show(a, 3) for a in self.args), self.kw)


class State:
    __slots__ = ('env', 'heap', 'bind', 'events', 'exc', 'raises', 'flow',
                 'ret', 'wloc')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.bind = {}
        self.events = []
        self.exc = FALSE
        self.raises = []
        self.flow = FN
        self.ret = NONE
        self.wloc = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.bind = dict(self.bind)
        s.events = list(self.events)
        s.exc = self.exc
        s.raises = list(self.raises)
        s.flow = self.flow
        s.ret = self.ret
        s.wloc = dict(self.wloc)
        return s

    def frame(self):
        s = self.copy()
        s.env = {}
        s.flow = FN
        s.ret = NONE
        return s


FN = leaf('flow', 'N')
FR = leaf('flow', 'R')
FB = leaf('flow', 'B')
FC = leaf('flow', 'C')


def flow_is(flow, which):
    return apply(lambda l: boolv(l is which), flow)


def id_fp(objid):
    k = objid[0]
    if k == 'p':
        return atom_fp('param', objid[1])
    if k == 'a':
        return atom_fp('attr', objid[1], objid[2])
    if k == 'v':
        return objid[1]
    return atom_fp('new', objid[1])


def content(st, objid):
    c = st.heap.get(objid)
    if c is None:
        return num(id_fp(objid))
    return c


def merge(g, a, b):
    """state = g ? a : b  (values only matter where no exception occurred)"""
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    s = State()
    s.exc = ite(g, a.exc, b.exc)
    n = 0
    la, lb = a.events, b.events
    while n < len(la) and n < len(lb) and la[n] is lb[n]:
        n += 1
    ng = not_(g)
    s.events = la[:n] + [e.with_guard(g) for e in la[n:]] + \
        [e.with_guard(ng) for e in lb[n:]]
    n = 0
    la, lb = a.raises, b.raises
    while n < len(la) and n < len(lb) and la[n] is lb[n]:
        n += 1
    s.raises = la[:n] + [(and_(g, r[0]),) + r[1:] for r in la[n:]] + \
        [(and_(ng, r[0]),) + r[1:] for r in lb[n:]]
    s.wloc = dict(b.wloc)
    s.wloc.update(a.wloc)
    if a.exc is TRUE or b.exc is TRUE:
        live = b if a.exc is TRUE else a
        s.env, s.heap, s.bind = dict(live.env), dict(live.heap), dict(
            live.bind)
        s.flow, s.ret = live.flow, live.ret
        return s
    s.flow = ite(g, a.flow, b.flow)
    s.ret = ite(g, a.ret, b.ret)
    s.env = _mdict(g, a.env, b.env, lambda k: num(atom_fp('undef')))
    s.heap = _mdict(g, a.heap, b.heap, lambda k: num(id_fp(k)))
    s.bind = _mdict(g, a.bind, b.bind, lambda k: leaf('r', ('a',) + k, ()))
    return s


def settle(st, c):
    """the state where the condition is known to hold"""
    asg = vg.implied(c)
    if asg:
        for d in (st.env, st.heap, st.bind):
            for k, v in d.items():
                if isinstance(v, vg.Val) and v.atom is not None:
                    w = vg.given(v, asg)
                    if w is not v:
                        d[k] = w
    return st


def _mdict(g, a, b, default):
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is v:
            out[k] = v
        else:
            if w is None:
                w = v if (isinstance(k, tuple) and k and k[0] == 'N') \
                    else default(k)
            out[k] = ite(g, v, w)
    for k, w in b.items():
        if k not in a:
            v = w if (isinstance(k, tuple) and k and k[0] == 'N') \
                else default(k)
            out[k] = ite(g, v, w)
    return out


def strjoin(parts):
    """text built from parts (however it is put together in the source)"""
    out = []
    for x in parts:
        if isinstance(x, tuple):
            out.append((dd_fp(x[0]), x[1]))
            continue
        if x.atom is None and x.p[0] == 's':
            out.append(x.p[1])
            continue
        if x.atom is None and x.p[0] == 'n':
            c = vg.CONST.get(x.p[1])
            n = vg.NODE.get(x.p[1])
            if c is not None and c.denominator == 1:
                out.append(str(c.numerator))
                continue
            if n is not None and n[0] == 'fstr':
                out += list(n[1])
                continue
        out.append(dd_fp(x))
    res = []
    for x in out:
        if isinstance(x, str):
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        res.append(x)
    if not res:
        return leaf('s', '')
    if len(res) == 1 and isinstance(res[0], str):
        return leaf('s', res[0])
    return num(atom_fp('fstr', *res))


def strformat(rc, args, kw):
    if rc.p[0] != 's':
        return None
    parts, auto = [], 0
    try:
        for text, field, spec, conv in string.Formatter().parse(rc.p[1]):
            if text:
                parts.append(leaf('s', text))
            if field is None:
                continue
            if field == '':
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field.isidentifier():
                v = kw[field]
            else:
                return None
            if spec or conv not in (None, 's'):
                if '{' in (spec or ''):
                    return None
                v = (v, '%s!%s' % (spec and 'f%r' % spec or '',
                                   ord(conv) if conv else -1))
            parts.append(v)
    except (IndexError, KeyError, ValueError):
        return None
    return strjoin(parts)


class Iter:
    """iteration descriptor: canonical length/domain + element builder"""

    def __init__(self, fp, make, items=None, cond=TRUE, plain=None):
        self.fp = fp
        self.make = make
        self.items = items
        self.cond = cond            # the iteration is skipped otherwise
        self.plain = plain or self  # numbered by what is not skipped


def lit_make(items):
    f = dd_fp(leaf('t', 'tuple', tuple(items)))
    return lambda i: num(n_sel(f, ('v', i.p[1])))


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Bound:
    def __init__(self, fn, selfv, cls):
        self.fn, self.selfv, self.cls = fn, selfv, cls


MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'remove', 'pop',
            'discard', 'clear', 'fill', 'sort', 'setdefault', 'popitem',
            'reverse'}
PURE_METHODS = {'format', 'join', 'split', 'keys', 'values', 'items', 'index',
                'lower', 'upper', 'startswith', 'endswith', 'strip', 'count',
                'any', 'all', 'sum', 'max', 'min', 'mean', 'copy', 'astype',
                'round', 'cumsum', 'prod', 'get', 'replace', 'tolist', 'item',
                'total_seconds', 'to_numpy', 'searchsorted', 'std', 'diff',
                'argmax', 'argmin', 'resample', 'interpolate', 'reindex',
                'dropna', 'fillna', 'describe', 'rolling', 'isin', 'head',
                'tail', 'strftime', 'union', 'intersection', 'difference',
                'issubset', 'ravel', 'flatten', 'reshape', 'transpose',
                'squeeze', 'dot', 'repeat', 'rjust', 'ljust', 'quantile',
                'shift', 'abs', 'isna', 'isnull', 'notna', 'first_valid_index',
                'insert_axis', 'sort_values', 'sort_index'}


_stored = {}


def stored_params(node):
    """parameters a function writes elements of, and does not rebind"""
    r = _stored.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    a = node.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    w, re = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(
                n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            w.add(n.value.id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            re.add(n.id)
    _stored[id(node)] = (node, (w & ps) - re)
    return _stored[id(node)][1]


class Interp:
    def __init__(self, prog, attr_cls=None, opaque=(), scalars=(),
                 max_depth=14, star_hook=None, alias=None, pure=(),
                 no_inline=(), havoc=None, watch=(), effects=None,
                 refs=(), alloc=False):
        self.prog = prog
        self.attr_cls = attr_cls or {}
        self.opaque = set(opaque)
        self.no_inline = set(no_inline)
        self.havoc = havoc or {}
        self.watch = tuple(watch)
        self.effects = effects or {}
        self.alloc = alloc      # record sizes of new arrays
        self.refs = set(refs)   # fields holding shared storage
        self.max_depth = max_depth
        self.star_hook = star_hook
        self.recv = {}          # fp -> Class
        self.alias = alias or {}  # (parentfp, attr) -> (objid, path)
        self.stack = []
        self.path = {}
        self.loopdepth = 0
        self.funcs_seen = set()
        self.n_calls = 0
        self.n_stores = 0
        self.n_branches = 0
        self.n_loops = 0
        self.unknown = []
        self.fresh = 0
        self.domains = set()    # what is looped over
        self.looprecs = []      # what each loop does in one iteration
        self.hints = []         # .. in the run to compare with
        self.lens = {}
        self.listof = {}
        self.shapes = {}
        self.scalars = set(scalars)
        self.pure = set(pure)

    # ------------------------------------------------------------- plumbing
    def loc(self, node):
        f = self.stack[-1][0] if self.stack else None
        if f is None:
            return ('?', 0, '?')
        return (f.module.path, getattr(node, 'lineno', 0),
                (f.cls.name + '.' if f.cls else '') + f.name)

    def unk(self, node, why):
        fp = atom_fp('unknown', why, ast.dump(node)[:400])
        vg.TAINT.add(fp)
        self.unknown.append((self.loc(node), why))
        return num(fp)

    def new_obj(self, st, cont, ln=None):
        self.fresh += 1
        oid = ('N', self.fresh)
        st.heap[oid] = cont
        if ln is not None:
            self.lens[oid] = ln
        return leaf('r', oid, ())

    def param(self, name, scalar=False):
        f = atom_fp('param', name)
        if scalar or name in self.scalars:
            vg.SCALAR.add(f)
        return leaf('r', ('p', name), ())

    def selfval(self, cls, name='self'):
        f = atom_fp('param', name)
        self.recv[f] = cls
        return num(f)

    # ------------------------------------------------------------ value reads
    def rv(self, v, st):
        """ref-free snapshot of a value"""
        def f(l):
            p = l.p
            if p[0] == 'r':
                oid, path = entry_array(st, p[1], p[2])
                c = content(st, oid)
                for k in path:
                    c = select_val(c, k)
                return self.rv(c, st) if has_ref(c) else c
            if p[0] == 't' and any(has_ref(x) for x in p[2]):
                return leaf('t', p[1], tuple(self.rv(x, st) for x in p[2]))
            if p[0] == 'arr' and any(has_ref(x) for _, x in p[2]):
                return leaf('arr', p[1], tuple(
                    (k, self.rv(x, st)) for k, x in p[2]))
            return l
        if has_ref(v):
            v = safe_apply(f, v)
        if self.path and v.atom is not None:
            v = vg.given(v, self.path)
        return v

    def within(self, c, fn, *a):
        """run fn knowing that condition c holds"""
        old = self.path
        new = vg.implied(c)
        if new:
            self.path = dict(old)
            self.path.update(new)
        try:
            return fn(*a)
        finally:
            self.path = old

    def ident(self, l, st):
        """identity number of a leaf used as an object"""
        p = l.p
        if p[0] == 'r':
            f = id_fp(p[1])
            for k in p[2]:
                f = n_sel(f, k)
            return f
        return to_fp(l)

    def getattr_leaf(self, l, name, st, node=None):
        p = l.p
        if p[0] == 'o':
            return self.getattr_obj(l, name, st)
        if name in ('shape', 'size', 'ndim', 'flat', 'dtype', 'values',
                    'index', 'columns', 'iloc', 'loc', 'iat', 'at'):
            r = self.arr_attr(l, name, st)
            if r is not None:
                return r
        pf = self.ident(l, st)
        if (pf, name) in st.bind:
            return st.bind[(pf, name)]
        if (pf, name) in self.alias:
            oid, path = self.alias[(pf, name)]
            return leaf('r', oid, path)
        cls = self.class_of(pf)
        if cls is not None:
            m = cls.find(name)
            if m is not None:
                if m.is_property():
                    r, _ = self.call_func(m, [l], {}, None, st, node)
                    return r
                if m.is_static():
                    return leaf('o', 'func:' + m.qual, m)
                return leaf('o', 'bm:%d:%s' % (pf, m.qual),
                            Bound(m, l, cls))
            if ('a', pf, name) not in st.heap and \
                    name not in cls.assigned_attrs():
                c = cls.const(name)
                if c is not None:
                    return self.const_expr(c[0].module, c[1], st)
        f = atom_fp('attr', pf, name)
        if name in self.scalars:
            vg.SCALAR.add(f)
        return leaf('r', ('a', pf, name), ())

    def class_of(self, pf):
        c = self.recv.get(pf)
        if c is not None:
            return c
        n = vg.NODE.get(pf)
        if n is not None:
            if n[0] == 'attr' and n[1][1] in self.attr_cls:
                return self.attr_cls[n[1][1]]
            if n[0] == 'sel':
                b = vg.NODE.get(n[1][0])
                if b is not None and b[0] == 'attr' and \
                        b[1][1] + '[]' in self.attr_cls:
                    return self.attr_cls[b[1][1] + '[]']
            if n[0] == 'param' and ('param:' + n[1][0]) in self.attr_cls:
                return self.attr_cls['param:' + n[1][0]]
        return None

    def len_of(self, l, st):
        p = l.p
        if p[0] == 't':
            return cnum(len(p[2]))
        if p[0] == 's':
            return cnum(len(p[1]))
        if p[0] == 'r':
            if p[1][0] == 'N' and not p[2]:
                if p[1] in self.lens:
                    return self.lens[p[1]]
                if p[1] in self.shapes:
                    return self.shapes[p[1]][0]
                c = content(st, p[1])
                if p[1] in self.listof and self.listof[p[1]][0] is c:
                    return self.listof[p[1]][1]
                if c.atom is None and c.p[0] in ('t',):
                    return cnum(len(c.p[2]))
                if c.atom is None and c.p[0] == 'n':
                    return num(len_fp(c.p[1]))
            c = content(st, p[1])
            if not p[2] and c.atom is None and c.p[0] == 't':
                return cnum(len(c.p[2]))
            sh = self.shape_of(p)
            if sh:
                return sh[0]
            return num(atom_fp('len', self.ident(l, st), scalar=True))
        return num(len_fp(to_fp(l)))

    def shape_of(self, p):
        """shape of (a basic slice x[a:-b] of) an array allocated with a known
        shape (that the array is long enough is taken for granted)"""
        if p[0] != 'r':
            return None
        sh = self.shapes.get(p[1])
        if sh is None:
            if p[1] not in self.lens:
                return None
            sh = [self.lens[p[1]]]
        for key in p[2]:
            keys = key[1:] if key[0] == 'tu' else (key,)
            if len(keys) > len(sh):
                return None
            out = []
            for k, n in zip(keys, sh):
                if k[0] in ('i', 'v') and len(k) == 2:
                    continue
                if k[0] != 'sl' or not key_const(k):
                    return None
                a, b, s = k[1:]
                c = const_value(n)
                if c is not None and c == int(c) and all(
                        x is None or x == int(x) for x in (a, b, s)):
                    out.append(cnum(len(range(int(c))[slice(*(
                        x if x is None else int(x) for x in (a, b, s)))])))
                    continue
                a = a or 0
                if s is None and a >= 0 and b is not None and b >= a:
                    out.append(cnum(b - a))
                    continue
                if s is not None or a < 0 or (b is not None and b >= 0):
                    return None
                out.append(vg.add(n, cnum((b or 0) - a)))
            sh = out + list(sh[len(keys):])
        return sh

    def arr_attr(self, l, name, st):
        if l.p[0] == 'n' and self.class_of(l.p[1]) is not None:
            return None
        if name == 'size':
            return self.len_of(l, st)
        if name == 'shape':
            sh = self.shape_of(l.p)
            if sh is not None:
                return leaf('t', 'tuple', tuple(sh))
            return num(atom_fp('shape', self.ident(l, st)))
        if name == 'flat':
            if l.p[0] == 'r':
                return leaf('r', l.p[1], l.p[2] + (('at', 'flat'),))
            return None
        if name in LOCATORS:
            k = ('at', name)
            if l.p[0] == 'r':
                return leaf('r', l.p[1], l.p[2] + (k,))
            return num(n_sel(to_fp(l), k))
        return None

    def getattr_obj(self, l, name, st):
        o = l.p[2]
        if isinstance(o, Module):
            return self.resolved(o.resolve(name), o.dotted + '.' + name, st)
        if isinstance(o, tuple) and o[0] == 'ext':
            return self.resolved(('ext', o[1] + '.' + name),
                                 o[1] + '.' + name, st)
        if isinstance(o, Class):
            m = o.find(name)
            if m is not None:
                return leaf('o', 'func:' + m.qual, m)
            c = o.const(name)
            if c is not None:
                return self.const_expr(c[0].module, c[1], st)
        if isinstance(o, tuple) and o[0] == 'super':
            _, cls, after, selfv = o
            m = cls.find(name, after=after)
            if m is not None:
                return leaf('o', 'bm:super:' + m.qual, Bound(m, selfv, cls))
            return num(atom_fp('superattr', name))
        return num(atom_fp('oattr', l.p[1], name))

    def resolved(self, r, name, st):
        if r is None:
            return num(atom_fp('global', name))
        if isinstance(r, Func):
            return leaf('o', 'func:' + r.qual, r)
        if isinstance(r, Class):
            return leaf('o', 'class:' + r.name, r)
        if isinstance(r, Module):
            return leaf('o', 'mod:' + r.dotted, r)
        if r[0] == 'ext':
            if r[1] in ('numpy.pi', 'math.pi'):
                return num(atom_fp('pi', scalar=True))
            if r[1] in ('numpy.newaxis',):
                return NONE
            if r[1] in ('numpy.nan', 'math.nan'):
                return num(atom_fp('nan', scalar=True))
            if r[1] in ('numpy.inf', 'math.inf'):
                return num(atom_fp('inf', scalar=True))
            return leaf('o', 'ext:' + r[1], r)
        if r[0] == 'const':
            return self.const_expr(r[1], r[2], st)
        return num(atom_fp('global', name))

    def const_expr(self, module, expr, st):
        key = ('cexpr', id(expr))
        for s in self.stack:
            if s[0] is key:
                return num(atom_fp('global', ast.dump(expr)[:100]))
        f = Func(ast.parse('def _const(): pass').body[0], module)
        self.stack.append((f, None))
        s2 = st.frame()
        try:
            r = self.rv(self.ev(expr, s2), s2)
        finally:
            self.stack.pop()
        return r

    # --------------------------------------------------------------- functions
    def call_func(self, fn, args, kw, starkw, st, node):
        """inline a resolved function; returns (value, state) and updates st
        in place"""
        if len(self.stack) > self.max_depth or any(
                s[0].node is fn.node for s in self.stack) or \
                fn.name in self.opaque:
            args, kw = positional(fn, 0, args, kw)
            return self.opaque_call(fn.name, None, args, kw, st, node), st
        self.funcs_seen.add(fn.qual)
        self.n_calls += 1
        inner = st.frame()
        if fn.closure is not None:
            inner.env.update(fn.closure)
        self.bind_args(fn, args, kw, starkw, inner)
        self.stack.append((fn, None))
        depth = self.loopdepth
        try:
            if isinstance(fn.node, ast.Lambda):
                inner.ret = self.ev(fn.node.body, inner)
            else:
                inner = self.exec_block(fn.node.body, inner)
        finally:
            self.stack.pop()
            self.loopdepth = depth
        st.heap, st.bind, st.events = inner.heap, inner.bind, inner.events
        st.exc, st.raises, st.wloc = inner.exc, inner.raises, inner.wloc
        isR = flow_is(inner.flow, FR)
        r = inner.ret if isR is TRUE or isinstance(fn.node, ast.Lambda) \
            else ite(isR, inner.ret, NONE)
        return r, st

    def bind_args(self, fn, args, kw, starkw, inner):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        vals = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            else:
                extra.append(v)
        rest = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                vals[k] = v
            else:
                rest[k] = v
        ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        ds.update({k: d for k, d in zip(kwo, a.kw_defaults) if d is not None})
        consumed = set()
        for p in pos + kwo:
            if p in vals:
                inner.env[p] = vals[p]
                continue
            d = None
            if p in ds:
                self.stack.append((fn, None))
                d = self.ev(ds[p], inner.frame())
                self.stack.pop()
            if starkw is not None:
                sk = self.rv(starkw, inner)
                got = select_val(sk, ('k', p))
                consumed.add(p)
                if d is None:
                    inner.env[p] = got
                else:
                    inner.env[p] = ite(self.contains(leaf('s', p), sk),
                                       got, d)
            elif d is not None:
                inner.env[p] = d
            else:
                inner.env[p] = self.param(p)
        if a.vararg:
            inner.env[a.vararg.arg] = leaf('t', 'tuple', tuple(extra))
        if a.kwarg:
            if starkw is not None:
                # every consumer reads by key: parameters consumed by name
                # are simply not looked up any more
                base = self.rv(starkw, inner)
                for k, v in rest.items():
                    base = store_val(base, (('k', k),), self.rv(v, inner))
                inner.env[a.kwarg.arg] = self.new_obj(inner, base)
            elif rest or len(self.stack):
                base = num(EMPTYDICT)
                for k, v in sorted(rest.items()):
                    base = store_val(base, (('k', k),), v)
                inner.env[a.kwarg.arg] = self.new_obj(inner, base)
            else:
                inner.env[a.kwarg.arg] = self.param(a.kwarg.arg)

    def run(self, fn, cls=None, args=None, st=None):
        """analyse a function/method as an entry point with symbolic
        parameters; returns final State (st.ret = return value)"""
        st = st or State()
        st = st.frame()
        self.funcs_seen.add(fn.qual)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        args = args or {}
        for i, p in enumerate(names):
            if p in args:
                st.env[p] = args[p]
            elif i == 0 and cls is not None and not fn.is_static():
                st.env[p] = self.selfval(cls)
            else:
                st.env[p] = self.param(p)
        if a.vararg:
            st.env[a.vararg.arg] = args.get(a.vararg.arg) or self.param(
                a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = args.get(a.kwarg.arg) or self.param(
                a.kwarg.arg)
        self.stack.append((fn, None))
        try:
            st = self.exec_block(fn.node.body, st)
        finally:
            self.stack.pop()
        isR = flow_is(st.flow, FR)
        st.ret = ite(isR, st.ret, NONE)
        return st

    # --------------------------------------------------------------- statements
    def exec_block(self, body, st):
        for i, s in enumerate(body):
            if st.exc is TRUE:
                return st
            if st.flow is FN:
                st = self.exec_stmt(s, st)
                continue
            g = flow_is(st.flow, FN)
            if g is FALSE:
                return st
            if g is TRUE:
                st = self.exec_stmt(s, st)
                continue
            rest = st.copy()
            rest.flow = FN
            settle(rest, g)
            rest = self.within(g, self.exec_block, body[i:], rest)
            return merge(g, rest, st)
        return st

    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.unk(s, 'statement ' + type(s).__name__)
            return st
        r = m(s, st)
        return r if r is not None else st

    def st_Pass(self, s, st):
        pass

    def st_Import(self, s, st):
        pass

    st_ImportFrom = st_Import
    st_Global = st_Import
    st_Nonlocal = st_Import

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def st_FunctionDef(self, s, st):
        f = Func(s, self.stack[-1][0].module, self.stack[-1][0].cls,
                 closure=st.env)
        st.env[s.name] = leaf('o', 'func:%s:%s:%d' % (
            f.qual, 'nested', id(s)), f)

    def st_ClassDef(self, s, st):
        st.env[s.name] = num(atom_fp('localclass', s.name))

    def st_Return(self, s, st):
        st.ret = self.ev(s.value, st) if s.value is not None else NONE
        st.flow = FR

    def st_Break(self, s, st):
        st.flow = FB

    def st_Continue(self, s, st):
        st.flow = FC

    def st_Raise(self, s, st):
        t = 'raise'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            t = ast.unparse(e)
        st.raises.append((not_(st.exc), t, self.loc(s)))
        st.exc = TRUE

    def st_Assert(self, s, st):
        c = truth(self.rv(self.ev(s.test, st), st))
        if c is TRUE:
            return
        n = and_(not_(st.exc), not_(c))
        st.raises.append((n, 'AssertionError', self.loc(s)))
        st.exc = or_(st.exc, not_(c))

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                root, path = self.lvalue(t, st)
                if root is not None:
                    self.store(root, path, num(atom_fp('deleted')), st, s)

    def st_If(self, s, st):
        c = truth(self.rv(self.ev(s.test, st), st))
        self.n_branches += 1
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        tested(c)
        a = self.within(c, self.exec_block, s.body, settle(st.copy(), c))
        b = self.within(not_(c), self.exec_block, s.orelse,
                        settle(st.copy(), not_(c)))
        self.unify(a, b)
        return merge(c, a, b)

    def unify(self, a, b):
        """objects made in both branches and held by the same names are one
        object afterwards, as they would be if made before the branch"""
        if a.exc is TRUE or b.exc is TRUE or a.flow is not FN or \
                b.flow is not FN:
            return
        pairs = {}
        for x, y in ((a.env, b.env), (a.bind, b.bind)):
            for k, v in x.items():
                w = y.get(k)
                if v is w or w is None or not (
                        isinstance(v, vg.Val) and isinstance(w, vg.Val)) or \
                        v.atom is not None or w.atom is not None or \
                        v.p[0] != 'r' or w.p[0] != 'r' or v.p[2] or w.p[2]:
                    continue
                i, j = v.p[1], w.p[1]
                if i[0] == j[0] == 'N' and i in a.heap and j in b.heap and \
                        i not in b.heap and j not in a.heap:
                    pairs.setdefault(i, set()).add(j)
        if not pairs:
            return
        back = {}
        for i, js in pairs.items():
            for j in js:
                back.setdefault(j, set()).add(i)
        pairs = {i: min(js) for i, js in pairs.items() if len(js) == 1 and
                 len(back[min(js)]) == 1}
        for i, j in list(pairs.items()):
            ok = True
            for o, s1 in ((i, a), (j, b)):
                for x in (s1.env, s1.bind):
                    for k, v in x.items():
                        # (names of one branch only: as long as it was taken)
                        if isinstance(v, vg.Val) and mentions(v, o):
                            ok = ok and v.atom is None and v.p[0] == 'r'
                ok = ok and not any(mentions(v, o)
                                    for v in s1.heap.values())
                ok = ok and not any(
                    isinstance(x, tuple) and x != o and o in x
                    for d in (s1.heap, s1.bind) for x in d)
            if not ok:
                del pairs[i]
        for i, j in pairs.items():
            self.fresh += 1
            new = ('N', self.fresh)
            for m in (self.lens, self.shapes):
                if i in m and j in m and m[i] == m[j]:
                    m[new] = m[i]
            for s, o in ((a, i), (b, j)):
                s.heap[new] = s.heap.pop(o)
                if ('h', o) in s.wloc:
                    s.wloc[('h', new)] = s.wloc[('h', o)]
                for d in (s.env, s.bind):
                    for k, v in d.items():
                        if isinstance(v, vg.Val) and v.atom is None and \
                                v.p[0] == 'r' and v.p[1] == o:
                            d[k] = leaf('r', new, v.p[2])

    def st_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def st_Try(self, s, st):
        pre = st.copy()
        pre_exc = st.exc
        body = self.exec_block(s.body, st.copy())
        raised = body.exc
        handlers = [h for h in s.handlers if not (
            isinstance(h.type, ast.Name) and h.type.id == 'NameError'
            and self.names_bound(s.body, pre))]
        if handlers:
            types = []
            for h in handlers:
                types.append('any' if h.type is None else ast.unparse(h.type))
            ev = [e for e in body.events[len(pre.events):]][:1]
            ex = boolatom('exception', tuple(types),
                          ev[0].name if ev else 'none')
            caught = or_(raised, ex)
            body.exc = pre_exc
            cur = None
            for k, h in enumerate(handlers):
                hs = pre.copy()
                # effects of the body before the exception are unknown: take
                # the body's effects for locations it wrote
                hs = body.copy()
                hs.flow = FN
                hs.exc = pre_exc
                if h.name:
                    hs.env[h.name] = num(atom_fp('excobj', types[k]))
                hs = self.exec_block(h.body, hs)
                if cur is None:
                    cur = hs
                else:
                    cur = merge(boolatom('exctype', types[k]), hs, cur)
            if s.orelse:
                body = self.exec_block(s.orelse, body)
            out = merge(caught, cur, body)
        else:
            out = self.exec_block(s.orelse, body) if s.orelse else body
        if s.finalbody:
            fl, rt, exc = out.flow, out.ret, out.exc
            out.flow = FN
            out.exc = pre_exc
            out = self.exec_block(s.finalbody, out)
            if out.flow is FN:
                out.flow, out.ret = fl, rt
            out.exc = or_(out.exc, exc)
        return out

    def names_bound(self, body, st):
        """every name read by the statements is certainly defined"""
        mod = self.stack[-1][0].module
        own = set(st.env) | {'__file__', '__name__'}
        for x in body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Load) and n.id not in own and \
                        not hasattr(builtins, n.id) and \
                        mod.resolve(n.id) is None:
                    return False
            if not isinstance(x, ast.Assign):
                return False
            own |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        return True

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    _stored = {}

    def stored(self):
        """names and fields of the function which are written element wise"""
        f = self.stack[-1][0].node
        r = self._stored.get(id(f))
        if r is None or r[0] is not f:
            out = set()
            for n in ast.walk(f):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store):
                    b = n.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, (ast.Name, ast.Attribute)):
                        out.add(ast.unparse(b))
            r = self._stored[id(f)] = (f, out)
        return r[1]

    def shared(self, s, v, st):
        """`a = b` and `a = b = array`: both name one array, which has to be
        an object if it is written through one of them"""
        src = [s.value] if isinstance(s.value, (ast.Name, ast.Attribute)) \
            else []
        if len(src) + len(s.targets) < 2 or v.atom is not None or \
                v.p[0] != 'n' or v.p[1] in vg.CONST or v.p[1] in vg.SCALAR \
                or vg.NODE.get(v.p[1], ('',))[0] in ('sel', 'attr', 'param'):
            return v
        w = self.stored()
        if not w or not any(
                isinstance(t, (ast.Name, ast.Attribute)) and
                ast.unparse(t) in w for t in s.targets + src):
            return v
        r = self.new_obj(st, v)
        for t in src:
            if isinstance(t, ast.Name):
                if t.id not in st.env:
                    return v
                st.env[t.id] = r
            else:
                b = self.ev(t.value, st)
                if b.atom is not None:
                    return v
                k = (self.ident(b, st), self.mangle(t.attr))
                if k not in st.bind:
                    return v
                st.bind[k] = r
        return r

    def st_Assign(self, s, st):
        v = self.shared(s, self.ev(s.value, st), st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id)
            if cur is None:
                cur = self.ev(ast.copy_location(
                    ast.Name(t.id, ast.Load()), t), st)
            new = self.binop(s.op, cur, self.ev(s.value, st), st)
            if cur.atom is None and cur.p[0] == 'r' and (
                    self.inplace_name(t.id) or self.is_array(cur)):
                self.store(cur, (FULL,), new, st, s)
            else:
                st.env[t.id] = new
            return
        if isinstance(t, ast.Attribute):
            cur = self.ev(ast.copy_location(ast.Attribute(
                t.value, t.attr, ast.Load()), t), st)
            new = self.binop(s.op, cur, self.ev(s.value, st), st)
            self.assign(t, new, st, s)
            return
        root, path = self.lvalue(t, st)
        if root is None:
            self.unk(s, 'augassign target')
            return
        rhs = self.ev(s.value, st)
        cur = self.rv(self.read_path(root, path, st), st)
        new = self.binop(s.op, cur, rhs, st)
        self.store(root, path, new, st, s)

    def is_array(self, r):
        return r.p[1][0] == 'a' and r.p[1][2] in self.prog.array_attrs() \
            and not any(k[0] in ('i', 'v', 'k') for k in r.p[2])

    def inplace_name(self, name):
        """`x += v` on a parameter that is never returned: in-place update of
        the caller's array; otherwise a plain rebinding"""
        fn = self.stack[-1][0].node
        a = fn.args
        if name not in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            return False
        for n in ast.walk(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                for m in ast.walk(n.value):
                    if isinstance(m, ast.Name) and m.id == name:
                        return False
        return self.stack[-1][0].cls is None

    _flat = {}

    def flat_for(self, s):
        """for x in (E for t in I if C): body  =  for t in I: if C: x = E;
        body"""
        r = self._flat.get(id(s))
        if r is None or r[0] is not s:
            g = s.iter.generators[0]
            names = {n.id for n in ast.walk(g.target)
                     if isinstance(n, ast.Name)}
            mine = {n.id for n in ast.walk(s.target)
                    if isinstance(n, ast.Name)}

            class Re(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id in names:
                        return ast.copy_location(
                            ast.Name(n.id + '#', n.ctx), n)
                    return n
            re_ = lambda n: Re().visit(copy.deepcopy(n))
            body = [ast.copy_location(ast.Assign(
                [s.target], re_(s.iter.elt)), s)] + s.body
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(re_(c), body, []), s)]
            new = ast.copy_location(ast.For(
                re_(g.target), g.iter, body, s.orelse), s)
            ast.fix_missing_locations(new)
            r = self._flat[id(s)] = (s, new)
        return r[1]

    def st_For(self, s, st):
        if isinstance(s.iter, (ast.ListComp, ast.GeneratorExp)) and \
                len(s.iter.generators) == 1:
            s = self.flat_for(s)
        it = self.iter_of(s.iter, st)
        return self.loop(s, it, s.target, s.body, s.orelse, st, None)

    def st_While(self, s, st):
        r = self.run_while(s, st)
        if r is not None:
            return r
        w = self.counted(s, st)
        if w is not None:
            return self.st_For(w, st)
        return self.loop(s, Iter(H('while'), None), None, s.body, s.orelse,
                         st, s.test)

    def run_while(self, s, st):
        """go through a while loop whose test is known each time"""
        if isinstance(s.test, ast.Constant):
            return None
        n = len(self.unknown)
        cur = st.copy()
        for i in range(41):
            c = truth(self.rv(self.ev(s.test, cur), cur))
            if c is FALSE and i:
                if s.orelse:
                    cur = self.exec_block(s.orelse, cur)
                return cur
            if c is not TRUE:
                break
            cur = self.exec_block(s.body, cur)
            cur.flow = apply(lambda l: FN if l is FC else l, cur.flow)
            if flow_is(cur.flow, FN) is not TRUE or cur.exc is TRUE:
                break
        del self.unknown[n:]
        return None

    def counted(self, s, st):
        """while i < n: body; i += 1   is   for i in range(i, n): body"""
        r = self._flat.get(id(s))
        if r is not None and r[0] is s:
            return r[1]
        r = self._counted(s, st)
        self._flat[id(s)] = (s, r)
        return r

    def _counted(self, s, st):
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name) or l.id not in st.env:
            return None
        i0 = self.rv(st.env[l.id], st)
        if isinstance(t.ops[0], ast.NotEq) and i0 is not VZERO:
            return None
        if i0.atom is not None or i0.p[0] != 'n' or not vg.is_scalar(
                i0.p[1]):
            return None
        at = None
        for n, b in enumerate(s.body):
            inc = isinstance(b, ast.AugAssign) and isinstance(
                b.op, ast.Add) and isinstance(b.target, ast.Name) and \
                b.target.id == l.id and isinstance(
                    b.value, ast.Constant) and b.value.value == 1
            inc = inc or (isinstance(b, ast.Assign) and ast.unparse(b) in (
                '{0} = {0} + 1'.format(l.id), '{0} = 1 + {0}'.format(l.id)))
            if inc and at is None:
                at = n
            elif any(isinstance(x, ast.Name) and x.id == l.id and isinstance(
                    x.ctx, (ast.Store, ast.Del)) for x in ast.walk(b)):
                return None
            elif at is None and any(isinstance(x, ast.Continue)
                                    for x in ast.walk(b)):
                return None
        if at is None:
            return None
        # the limit stays what it is
        if any(not isinstance(x, (ast.Name, ast.Attribute, ast.Constant,
                                  ast.BinOp, ast.operator, ast.Load,
                                  ast.Subscript, ast.UnaryOp, ast.unaryop))
               and not (isinstance(x, ast.Call) and isinstance(
                   x.func, ast.Name) and x.func.id == 'len'
                   and isinstance(x.args[0], (ast.Name, ast.Attribute)))
               for x in ast.walk(r)):
            return None
        ns = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
        lims = {ast.unparse(x) for x in ast.walk(r) if isinstance(
            x, (ast.Name, ast.Attribute))} - {'self'}
        haslen = any(isinstance(x, ast.Call) for x in ast.walk(r))
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, (ast.Store, ast.Del)) and x.id in ns:
                    return None
                if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                        isinstance(x.ctx, (ast.Store, ast.Del)) and (
                            ast.unparse(x) in lims or (isinstance(
                                x, ast.Subscript) and (not haslen or isinstance(
                                    x.ctx, ast.Del)) and ast.unparse(
                                    x.value) in lims)):
                    return None
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and (ast.unparse(
                            x.func.value) in lims and x.func.attr in (
                            'append', 'pop', 'remove', 'insert', 'extend',
                            'clear', 'add', 'update', 'popitem')):
                    return None
        k = '#' + l.id
        new = ast.parse('for k in range(a, b):\n    i = k').body[0]
        new.target = ast.Name(k, ast.Store())
        new.iter.args = [ast.Name(l.id, ast.Load()), r]
        new.body[0].targets[0].id = l.id
        new.body[0].value.id = k
        if at == len(s.body) - 1:
            rest = s.body[:-1]
        else:
            rest = s.body
        new.body = new.body + rest
        for x in ast.walk(new):
            if not hasattr(x, 'lineno') and 'lineno' in x._attributes:
                ast.copy_location(x, s)
        for x in [new, new.iter] + list(new.body[:1]):
            ast.copy_location(x, s)
        ast.fix_missing_locations(new)
        return new

    # ------------------------------------------------------------------- loops
    def loop(self, s, it, target, body, orelse, st, test):
        self.n_loops += 1
        if it.items is not None and len(it.items) <= 40:
            return self.unroll(s, it.items, target, body, orelse, st)
        self.loopdepth += 1
        try:
            return self._loop(s, it, target, body, orelse, st, test)
        finally:
            self.loopdepth -= 1

    def unroll(self, s, items, target, body, orelse, st):
        broke = FALSE
        for x in items:
            if st.exc is TRUE:
                return st
            g = flow_is(st.flow, FN)
            if g is FALSE:
                break
            cur = st.copy() if g is not TRUE else st
            old = st
            cur.flow = FN
            self.assign(target, x, cur, s)
            cur = self.exec_block(body, cur)
            # continue -> normal
            cur.flow = apply(lambda l: FN if l is FC else l, cur.flow)
            st = cur if g is TRUE else merge(g, cur, old)
        nb = not_(flow_is(st.flow, FB))
        if orelse:
            g = and_(nb, flow_is(st.flow, FN))
            if g is not FALSE:
                e = st.copy()
                e.flow = FN
                e = self.exec_block(orelse, e)
                st = merge(g, e, st)
        st.flow = apply(lambda l: FN if l is FB else l, st.flow)
        return st

    def _body_once(self, s, it, iota, target, body, st, test):
        cur = st
        if test is not None:
            c = truth(self.rv(self.ev(test, cur), cur))
            out = cur.copy()
            out.flow = FB
            if c is FALSE:
                return out
            inn = self.exec_block(body, cur.copy() if c is not TRUE else cur)
            return merge(c, inn, out)
        if it.cond is not TRUE:
            out = cur.copy()
            self.assign(target, it.make(iota), cur, s)
            return merge(it.cond, self.exec_block(body, cur), out)
        self.assign(target, it.make(iota), cur, s)
        return self.exec_block(body, cur)

    def _loop(self, s, it, target, body, orelse, st, test):
        d = self.loopdepth
        self.domains.add(it.fp)
        iota = num(atom_fp('iota', d, it.fp, scalar=True))
        # 1. probe: which locations does the body modify?
        unk0 = len(self.unknown)
        probe = self._body_once(s, it, iota, target, body, st.copy(), test)
        del self.unknown[unk0:]
        tnames = {n.id for n in ast.walk(target)
                  if isinstance(n, ast.Name)} if target is not None else set()
        mods = []

        def collect(after, before):
            n = len(mods)
            have = set(mods)
            for k, v in after.env.items():
                if before.env.get(k) is not v and k not in tnames:
                    mods.append(('e', k))
            for k, v in after.heap.items():
                if before.heap.get(k) is not v and (
                        k in st.heap or k[0] != 'N'):
                    mods.append(('h', k))
            for k, v in after.bind.items():
                if before.bind.get(k) is not v:
                    mods.append(('b', k))
            mods[n:] = [k for k in mods[n:] if k not in have]
            return len(mods) > n

        def getv(x, k):
            if k[0] == 'e':
                return x.env.get(k[1])
            if k[0] == 'h':
                return x.heap.get(k[1])
            return x.bind.get(k[1])

        def setv(x, k, v):
            if k[0] == 'e':
                x.env[k[1]] = v
            elif k[0] == 'h':
                x.heap[k[1]] = v
            else:
                x.bind[k[1]] = v

        # .. in any iteration: repeat with what is known to change unknown
        more = collect(probe, st)
        for rnd in range(6):
            if not more:
                break
            cur = st.copy()
            cur.exc = FALSE
            cur.flow = FN
            for i, k in enumerate(mods):
                f = atom_fp('probe', d, rnd, i)
                v = getv(st, k)
                if k[0] == 'e' and v is not None:
                    v = self.rv(v, st)
                    if v.atom is None and v.p[0] == 'n' and vg.is_scalar(
                            v.p[1]):
                        vg.SCALAR.add(f)
                setv(cur, k, num(f))
            before = cur.copy()
            probe = self._body_once(s, it, iota, target, body, cur, test)
            del self.unknown[unk0:]
            more = collect(probe, before)

        inits = {}
        for k in mods:
            v = getv(st, k)
            if v is None:
                if k[0] == 'h':
                    v = num(id_fp(k[1]))
                elif k[0] == 'b':
                    v = leaf('r', ('a',) + k[1], ())
                else:
                    v = num(atom_fp('undef'))
            inits[k] = v
        tags = {k: tag(self.rv(inits[k], st)) for k in mods}
        self._disamb(tags)
        res = None

        def once(cur, phis):
            res = self._body_once(s, it, iota, target, body, cur, test)
            res.flow = apply(lambda l: FN if l is FC else l, res.flow)
            gb = flow_is(res.flow, FB)
            gr = flow_is(res.flow, FR)
            bodyv = {}
            for k in mods:
                v = getv(res, k)
                bodyv[k] = self.rv(v, res) if v is not None else phis[k]
                if k[0] == 'b' and k[1][-1] in self.refs and v is not None \
                        and v.atom is None and v.p[0] == 'r':
                    bodyv[k] = num(atom_fp(
                        'ref', 'new' if v.p[1][0] == 'N' else
                        self.ident(v, res)))
            return res, bodyv, gb, gr

        ind = {}        # induction variables: location -> step per iteration
        count = None
        if test is None:
            rg = RANGES.get(it.fp)
            if rg is None:
                count = iota
            elif rg[2] is vg.VONE and rg[0].atom is None and rg[0].p[0] == 'n':
                count = vg.sub(iota, rg[0])
        refined = 0
        for rnd in range(4):
            cur = st.copy()
            n_ev = len(cur.events)
            n_rs = len(cur.raises)
            cur.exc = FALSE
            cur.flow = FN
            phis = {}
            for k in mods:
                f = atom_fp('phi', d, tags[k])
                iv = self.rv(inits[k], st)
                if k[0] == 'e' and iv.atom is None and iv.p[0] == 'n' and \
                        vg.is_scalar(iv.p[1]):
                    vg.SCALAR.add(f)
                phis[k] = num(f)
                if k in ind:
                    phis[k] = vg.add(iv, vg.mul(ind[k], count))
                setv(cur, k, phis[k])
            res, bodyv, gb, gr = once(cur, phis)
            if rnd == 0 and count is not None:
                ind = self.induction(mods, inits, phis, bodyv, st)
                if ind:
                    continue
            # colour refinement
            base = tag(it.fp, gb, gr)
            tags = {k: tag(tags[k], bodyv[k], base) for k in mods}
            refined += 1
            if refined == 3:
                break
            self._disamb(tags)
        rec = dict(it=it.fp, d=d, phis=phis, bodyv=bodyv, gb=gb, gr=gr,
                   tags=tags, exc=res.exc,
                   ret=self.rv(res.ret, res) if gr is not FALSE else VZERO,
                   inits={k: self.rv(inits[k], st) for k in mods})
        twin = None
        for r in reversed(self.hints):
            if r['it'] == it.fp and r['d'] == d:
                if all(k[0] == 'e' or r['tags'].get(k) == tags[k]
                       for k in mods) and r['exc'].h == res.exc.h:
                    twin = None
                    break
                twin = twin or r
        if twin is not None:
            got = self.couple(twin, rec, mods, st, setv, once)
            if got is None:
                twin = None
            else:
                phis, bodyv, gb, gr, res, paired = got
        out = st.copy()
        new_events = res.events[n_ev:]
        evs = []
        for e in new_events:
            e2 = Event(e.guard, e.name, e.recv, e.args, e.kw, e.loc,
                       (it.fp,) + e.loops)
            evs.append(e2)
        out.events = st.events + evs
        out.raises = st.raises + list(res.raises[n_rs:])
        out.wloc = res.wloc
        for k in mods:
            if bodyv[k] is phis[k]:
                continue
            if twin is not None and k in paired:
                setv(out, k, twin['out'][paired[k]])
                continue
            if k in ind and gb is FALSE and gr is FALSE:
                n = self.n_iter(it)
                if n is not None:
                    setv(out, k, vg.add(self.rv(inits[k], st),
                                        vg.mul(ind[k], n)))
                    continue
            v = self.loop_value(k, it, iota, phis, bodyv, tags, inits, gb, gr,
                                st, res)
            setv(out, k, v)
        # names first bound inside
        for k, v in res.env.items():
            if k not in out.env and ('e', k) not in bodyv:
                out.env[k] = num(atom_fp('last', it.fp, self.rv(v, res).h))
        for k, v in res.heap.items():
            if k not in out.heap and k[0] == 'N':
                out.heap[k] = v
        rec['out'] = {k: v for k in mods for v in [getv(out, k)]
                      if v is not None}
        self.looprecs.append(rec)
        if res.exc is not FALSE:
            le = boolatom('loopexc', it.fp, (
                twin['exc'] if twin is not None and vg.same(
                    twin['exc'], res.exc) else res.exc).h)
            out.exc = or_(out.exc, le)
        out.flow = FN
        ret_g = FALSE
        if gr is not FALSE:
            ret_g = boolatom('loopret', it.fp, gr.h)
        if orelse:
            broke = boolatom('loopbrk', it.fp, gb.h) if gb is not FALSE \
                else FALSE
            e = self.exec_block(orelse, out.copy())
            out = merge(broke, out, e)
        if ret_g is not FALSE:
            r = out.copy()
            r.flow = FR
            r.ret = num(atom_fp('loopretval', it.fp, gr.h,
                                (twin['ret'] if twin is not None and vg.same(
                                    twin['ret'], self.rv(res.ret, res))
                                 else self.rv(res.ret, res)).h))
            out = merge(ret_g, r, out)
        return out

    def couple(self, twin, rec, mods, st, setv, once):
        """Induction over the iterations: if the locations of this loop start
        with the values those of the twin start with, and one iteration takes
        equal values to equal values, both loops leave equal values."""
        pair = {}
        for k in mods:
            if k[0] != 'e':
                if k in twin['inits'] and k in twin['out'] and vg.same(
                        twin['inits'][k], rec['inits'][k]):
                    pair[k] = k
                continue
            c = [x for x in twin['inits'] if x[0] == 'e' and x in twin['out']
                 and twin['inits'][x].h == rec['inits'][k].h]
            if k in c:
                pair[k] = k
            elif c:
                used = set(pair.values())
                pair[k] = ([x for x in c if x not in used] or c)[0]
        for rnd in range(4):
            if not any(k[0] != 'e' for k in pair) and not pair:
                return None
            cur = st.copy()
            cur.exc = FALSE
            cur.flow = FN
            phis = {}
            for k in mods:
                phis[k] = twin['phis'][pair[k]] if k in pair else \
                    rec['phis'][k]
                setv(cur, k, phis[k])
            res, bodyv, gb, gr = once(cur, phis)
            bad = [k for k in pair
                   if not vg.same(twin['bodyv'][pair[k]], bodyv[k])]
            if not bad:
                if not (vg.same(twin['gb'], gb) and vg.same(twin['gr'], gr)):
                    return None
                return phis, bodyv, twin['gb'], twin['gr'], res, pair
            for k in bad:
                del pair[k]
        return None

    def induction(self, mods, inits, phis, bodyv, st):
        """locals that grow by a loop-invariant constant per iteration"""
        out = {}
        for k in mods:
            if k[0] != 'e':
                continue
            iv, b = self.rv(inits[k], st), bodyv[k]
            if iv.atom is not None or iv.p[0] != 'n' or \
                    not vg.is_scalar(iv.p[1]) or \
                    b.atom is not None or b.p[0] != 'n':
                continue
            d = (b.p[1] - phis[k].p[1]) % vg.P
            if d != 0 and d in vg.CONST:
                out[k] = num(d)
        return out

    def n_iter(self, it):
        """number of iterations of a for loop that runs to its end"""
        rg = RANGES.get(it.fp)
        if rg is not None and rg[0] is VZERO and rg[2] is vg.VONE and \
                rg[1].atom is None and rg[1].p[0] == 'n':
            f = rg[1].p[1]
            if vg.known_signs(f) <= {0, 1} or (
                    vg.NODE.get(f, ('',))[0] in ('len', 'size')):
                return rg[1]
        return None

    def _disamb(self, tags):
        """locations with identical tags get distinct ones (by stable order of
        their names; only matters for genuinely symmetric variables)"""
        byt = {}
        for k, t in tags.items():
            byt.setdefault(t, []).append(k)
        for t, ks in byt.items():
            if len(ks) > 1:
                heapks = [k for k in ks if k[0] != 'e']
                if len(heapks) > 1:
                    for k in heapks:
                        tags[k] = H(t, repr(k))
                elif heapks:
                    for k in ks:
                        if k[0] == 'e':
                            tags[k] = H(t, 'local')

    def loop_value(self, k, it, iota, phis, bodyv, tags, inits, gb, gr, st,
                   res):
        # vectorisable element-wise map:  x[i] = f(i) for the whole range
        b = bodyv[k]
        init = self.rv(inits[k], st)
        m = self.try_map(k, it, iota, phis, b, init, gb, gr)
        if m is None:
            m = self.as_comp(k, it, phis, b, init, gb, gr)
        if m is not None:
            return m
        f = atom_fp('loop', it.fp, tags[k], dd_fp(b))
        LOOPS[f] = it.fp
        LOOPKIND[f] = k[0]
        if k[0] == 'e' and init.atom is None and init.p[0] == 'n' and \
                vg.is_scalar(init.p[1]) and all(
                    l.p[0] == 'n' and vg.is_scalar(l.p[1])
                    for l in vg.leaves(b)):
            vg.SCALAR.add(f)
        return num(f)

    def as_comp(self, k, it, phis, b, init, gb, gr):
        """x = []; for t in I: if c: x.append(v)   is   [v for t in I if c]
        (the same for sets and dictionaries)"""
        if gb is not FALSE or gr is not FALSE or init.atom is not None:
            return None
        phi = phis[k]
        p = init.p
        if p[0] == 't' and p[1] == 'list' and not p[2]:
            kind, op = 'list', 'mut:append'
        elif p[0] == 'arr' and p[1] == EMPTYDICT and not p[2] or (
                p[0] == 'n' and p[1] == EMPTYDICT):
            kind, op = 'dict', None
        elif p[0] == 'n' and vg.NODE.get(p[1], ('',))[0] == 'setof' and \
                not list(vg._flat(vg.NODE[p[1]][1])):
            kind, op = 'set', 'mut:add'
        else:
            return None
        vals = {}

        def new(l):
            if l is phi:
                return FALSE
            if kind == 'dict':
                if l.p[0] == 'arr' and l.p[1] == phi.p[1] and len(
                        l.p[2]) == 1:
                    key, v = l.p[2][0]
                    kf = key[1] if key[0] == 'v' else None
                    if kf is not None:
                        v = (kf, dd_fp(v))
                        vals[v] = v
                        return TRUE
            elif l.p[0] == 'n':
                n = vg.NODE.get(l.p[1])
                if n is not None and n[0] == op and n[1][0] == phi.p[1]:
                    vals[n[1][1]] = (n[1][1],)
                    return TRUE
            vals[None] = None
            return TRUE
        c = apply(new, b)
        if len(vals) != 1 or None in vals:
            return None
        v = list(vals.values())[0]
        ph = {x.p[1] for x in phis.values() if x.p[0] == 'n'}
        if rests_on(list(v) + list(vg.dd_fps(c)), ph):
            return None
        return comp_val(kind, it.fp, v, c)

    def try_map(self, k, it, iota, phis, b, init, gb, gr):
        if gb is not FALSE or gr is not FALSE or k[0] != 'h' or \
                b.atom is not None or b.p[0] != 'arr':
            return None
        if b.p[1] != phis[k].p[1] or len(b.p[2]) != 1:
            return None
        key, v = b.p[2][0]
        if key != ('v', iota.p[1]):
            return None
        n = RANGES.get(it.fp)
        if n is None or n[0] is not VZERO:
            return None
        own = {atom_fp('len', id_fp(k[1]), scalar=True)}
        if k[1] in self.lens:
            own.add(to_fp(self.lens[k[1]]))
        if n[1].atom is not None or to_fp(n[1]) not in own:
            return None
        phif = {p.p[1] for p in phis.values()}
        r = unsel(v, iota.p[1], phif)
        return r

    # ------------------------------------------------------------ iteration
    def iter_of(self, e, st):
        if isinstance(e, ast.Call):
            f = e.func
            fname = f.id if isinstance(f, ast.Name) and f.id not in st.env \
                else None
            if fname in ('range', 'prange') or (
                    isinstance(f, ast.Attribute) and f.attr == 'prange'):
                a = [self.rv(self.ev(x, st), st) for x in e.args]
                if len(a) == 1:
                    a = [VZERO, a[0], cnum(1)]
                elif len(a) == 2:
                    a = [a[0], a[1], cnum(1)]
                cs = [vg.CONST.get(x.p[1]) if x.atom is None and
                      x.p[0] == 'n' else None for x in a]
                items = None
                if all(c is not None for c in cs):
                    r = range(*[int(c) for c in cs])
                    if len(r) <= 16:
                        items = [cnum(i) for i in r]
                fp = H('range', *[dd_fp(x) for x in a])
                RANGES[fp] = a
                vg.NODE.setdefault(fp, ('range', tuple(dd_fp(x) for x in a)))
                return Iter(fp, lambda i: i, items)
            if fname == 'enumerate':
                sub = self.iter_of(e.args[0], st).plain
                off = e.args[1] if len(e.args) > 1 else next(
                    (k.value for k in e.keywords if k.arg == 'start'), None)
                off = VZERO if off is None else self.rv(
                    self.ev(off, st), st)
                items = None
                if sub.items is not None:
                    items = [leaf('t', 'tuple', (vg.add(cnum(i), off), x))
                             for i, x in enumerate(sub.items)]
                return Iter(sub.fp, lambda i: leaf(
                    't', 'tuple', (vg.add(i, off), sub.make(i))), items)
            if fname == 'zip':
                subs = [self.iter_of(x, st).plain for x in e.args]
                items = None
                if all(x.items is not None for x in subs):
                    items = [leaf('t', 'tuple', t) for t in
                             zip(*[x.items for x in subs])]
                return Iter(subs[0].fp, lambda i: leaf(
                    't', 'tuple', tuple(x.make(i) for x in subs)), items)
            if fname in ('list', 'tuple', 'iter') and len(e.args) == 1:
                return self.iter_of(e.args[0], st)
            if fname in ('map', 'filter') and len(e.args) == 2:
                fn = self.ev(e.args[0], st)
                sub = self.iter_of(e.args[1], st)
                if sub.cond is not TRUE:
                    sub = sub.plain
                call = lambda x: self.call_cond(fn, [x], {}, None, st, e)
                if fname == 'map':
                    items = None if sub.items is None else [
                        call(x) for x in sub.items]
                    return Iter(sub.fp, lambda i: call(sub.make(i)), items)
                if sub.items is None:
                    i = num(atom_fp('iota', self.loopdepth + 1, sub.fp,
                                    scalar=True))
                    f = H('filter', sub.fp, fn.h)
                    return Iter(sub.fp, sub.make, None, truth(self.rv(
                        call(sub.make(i)), st)), Iter(f, lambda i: num(
                            n_sel(f, ('v', i.p[1])))))
                cs = [truth(self.rv(call(x), st)) for x in sub.items]
                if all(c in (TRUE, FALSE) for c in cs):
                    its = [x for x, c in zip(sub.items, cs) if c is TRUE]
                    return Iter(H('lit', 'filter', *[x.h for x in its]),
                                lit_make(its), its)
            if fname in ('reversed', 'sorted') and len(e.args) == 1:
                sub = self.iter_of(e.args[0], st).plain
                if sub.items is None:
                    # the same items in another order
                    return Iter(atom_fp('call:' + fname + '-order', sub.fp, *[
                        (k.arg, dd_fp(self.rv(self.ev(k.value, st), st)))
                        for k in e.keywords]), sub.make)
                if fname == 'sorted' and not e.keywords:
                    its = sort_items(sub.items)
                    if its is not None:
                        return Iter(H('lit', 'sorted', sub.fp),
                                    lit_make(its), its)
                if fname == 'reversed':
                    its = list(reversed(sub.items))
                    return Iter(H('lit', 'rev', sub.fp), lit_make(its), its)
            if isinstance(f, ast.Attribute) and f.attr in (
                    'items', 'keys', 'values') and not e.args:
                d = self.ev(f.value, st)
                return self.iter_dict(d, f.attr, st)
        v = self.ev(e, st)
        return self.iter_val(v, st)

    def iter_dict(self, d, what, st):
        c = self.rv(d, st)
        if c.atom is None and c.p[0] == 'arr' and c.p[1] == EMPTYDICT and all(
                k[0] == 'k' for k, _ in c.p[2]):
            its = []
            for k, v in c.p[2]:
                kv = leaf('s', k[1])
                its.append({'items': leaf('t', 'tuple', (kv, v)),
                            'keys': kv, 'values': v}[what])
            return Iter(H('lit', c.h), lit_make(its), its)
        ls = vg.leaves(c) if c.atom is not None else []
        if ls and all(l.p[0] == 'arr' and l.p[1] == EMPTYDICT and
                      all(k[0] == 'k' for k, _ in l.p[2]) and
                      [k for k, _ in l.p[2]] == [k for k, _ in ls[0].p[2]]
                      for l in ls):
            # the values depend on conditions, the keys do not
            its = []
            for i, (k, _) in enumerate(ls[0].p[2]):
                kv = leaf('s', k[1])
                v = vg.apply(lambda l, i=i: l.p[2][i][1], c)
                its.append({'items': leaf('t', 'tuple', (kv, v)),
                            'keys': kv, 'values': v}[what])
            return Iter(H('lit', c.h), lit_make(its), its)
        df = dd_fp(c) if not self.is_obj(d) else self.objfp(d, st)
        ln = num(atom_fp('len', df, scalar=True))
        fp = atom_fp('range', vg.ZERO, dd_fp(ln), vg.ONE)
        RANGES.setdefault(fp, [VZERO, ln, vg.VONE])

        def make(i):
            key = num(n_sel(df, ('v', i.p[1])))
            if what == 'keys':
                return key
            val = self.subscript(d, self.key_val(key), st)
            if what == 'values':
                return val
            return leaf('t', 'tuple', (key, val))
        return Iter(fp, make)

    def is_obj(self, d):
        return d.atom is None and d.p[0] == 'r'

    def objfp(self, d, st):
        if d.p[1][0] == 'N' or d.p[1] in st.heap:
            return dd_fp(self.rv(d, st))
        return self.ident(d, st)

    def iter_val(self, v, st):
        c = v
        if c.atom is None and c.p[0] == 'o' and isinstance(c.p[2], Iter):
            return c.p[2]
        if c.atom is None and c.p[0] == 'r':
            cc = self.rv(c, st)
            if cc.atom is None and cc.p[0] == 't':
                return Iter(H('lit', cc.h), lit_make(cc.p[2]),
                            list(cc.p[2]))
            if cc.atom is None and cc.p[0] == 'arr' and cc.p[1] == EMPTYDICT:
                return self.iter_dict(cc, 'keys', st)
            if cc.atom is None and cc.p[0] == 'o' and isinstance(
                    cc.p[2], Iter):
                return cc.p[2]
            ln = self.len_of(c, st)
            fp = atom_fp('range', vg.ZERO, dd_fp(ln), vg.ONE)
            RANGES.setdefault(fp, [VZERO, ln, cnum(1)])
            f = dd_fp(cc)
            return self.iter_comp(f, Iter(fp, lambda i: num(n_sel(
                f, ('v', i.p[1])))))
        c = self.rv(c, st)
        if c.atom is None and c.p[0] == 't':
            return Iter(H('lit', c.h), lit_make(c.p[2]), list(c.p[2]))
        if c.atom is None and c.p[0] == 'o' and isinstance(c.p[2], Iter):
            return c.p[2]
        f = dd_fp(c)
        n = vg.NODE.get(f)
        ln = num(len_fp(f))
        fp = atom_fp('range', vg.ZERO, dd_fp(ln), vg.ONE)
        RANGES.setdefault(fp, [VZERO, ln, cnum(1)])
        return self.iter_comp(f, Iter(fp, lambda i: num(n_sel(
            f, ('v', i.p[1])))))

    def iter_comp(self, f, it):
        """for x in [v for t in I if c]   is   for t in I: if c: x = v"""
        n = vg.NODE.get(f)
        if n is None or n[0] != 'comp' or f not in COMPIF or len(
                n[1][1]) != 1:
            return it
        iota = atom_fp('iota', self.loopdepth + 1, n[1][0], scalar=True)
        if rests_iota(f) - {iota}:
            return it
        return Iter(n[1][0], lambda i: vg.unfp(n[1][1][0]), None, COMPIF[f],
                    it)

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)]
            if v.atom is None and v.p[0] == 't' and not stars and \
                    len(v.p[2]) == len(t.elts):
                for e, x in zip(t.elts, v.p[2]):
                    self.assign(e, x, st, node)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, num(atom_fp(
                            'starred', dd_fp(self.rv(v, st)), i)), st, node)
                    else:
                        self.assign(e, self.subscript(v, ('i', i), st), st,
                                    node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            name = self.mangle(t.attr)
            self.set_attr(base, name, v, st, node)
        elif isinstance(t, ast.Subscript):
            root, path = self.lvalue(t, st)
            if root is None:
                return
            self.store(root, path, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        else:
            self.unk(t, 'assignment target')

    def set_attr(self, base, name, v, st, node):
        if base.atom is not None:
            old = {}
            for l in vg.leaves(base):
                pf = self.ident(l, st)
                cond = apply(lambda x: boolv(x is l), base)
                cur = st.bind.get((pf, name)) or leaf('r', ('a', pf, name),
                                                      ())
                st.bind[(pf, name)] = ite(cond, v, cur)
            return
        pf = self.ident(base, st)
        if v.atom is not None and all(l.p[0] == 'r' for l in vg.leaves(v)):
            pass
        elif not (v.atom is None and v.p[0] in ('r', 'o')):
            # containers keep references to the objects they hold
            if not (v.atom is None and v.p[0] in ('t', 'arr')):
                v = self.rv(v, st)
        st.bind[(pf, name)] = v
        st.wloc[('b', pf, name)] = self.loc(node)
        self.n_stores += 1

    def lvalue(self, t, st):
        """root ref + selector path of a subscript target"""
        path = []
        while isinstance(t, ast.Subscript):
            path.insert(0, self.key_of(t.slice, st))
            t = t.value
            if isinstance(t, ast.Attribute) and t.attr in LOCATORS:
                path.insert(0, ('at', t.attr))
                t = t.value
        root = self.ev(t, st)
        root, path = self.member(root, path, st)
        if root.atom is None and root.p[0] == 'r':
            return root, tuple(path)
        if root.atom is not None and all(
                l.p[0] == 'r' for l in vg.leaves(root)):
            # one of several objects
            return root, tuple(path)
        if isinstance(t, ast.Name) and t.id in st.env:
            # plain value held by a local name: make it an object
            if root.atom is None and root.p[0] == 'o':
                return None, None
            if root.atom is None and root.p[0] == 'n' and \
                    root.p[1] in vg.NODE and vg.NODE[root.p[1]][0] in (
                        'sel', 'attr'):
                oid = ('v', root.p[1])
                return leaf('r', oid, ()), tuple(path)
            r = self.new_obj(st, self.rv(root, st))
            st.env[t.id] = r
            return r, tuple(path)
        if isinstance(t, ast.Attribute):
            # plain value held by a field: make it an object of its own
            def obj(l):
                if l.p[0] not in ('n', 'arr', 't') or (
                        l.p[0] == 'n' and l.p[1] in vg.NODE
                        and vg.NODE[l.p[1]][0] in ('sel', 'attr')):
                    return l
                return self.new_obj(st, self.rv(l, st))
            base = self.ev(t.value, st)
            if base.atom is None:
                new = obj(root) if root.atom is None else vg.apply(obj, root)
                if new is not root:
                    k = (self.ident(base, st), self.mangle(t.attr))
                    if k in st.bind:
                        st.bind[k] = new
                        root = new
                        if root.atom is None:
                            return root, tuple(path)
        if root.atom is None:
            return leaf('r', ('v', to_fp(root)), ()), tuple(path)
        # conditional object
        return root, tuple(path)

    def member(self, root, path, st):
        """a store into an object held by a container is a store into that
        object"""
        path = list(path)
        while len(path) > 1 and path[0][0] == 'i' and root.atom is None:
            c = root
            if c.p[0] == 'r':
                if c.p[2]:
                    break
                c = content(st, c.p[1])
            if c.atom is not None or c.p[0] != 't' or not (
                    -len(c.p[2]) <= path[0][1] < len(c.p[2])):
                break
            e = c.p[2][path[0][1]]
            if e.atom is not None or e.p[0] not in ('r', 't'):
                break
            root, path = e, path[1:]
        return root, path

    def read_path(self, root, path, st):
        v = root
        for k in path:
            v = self.subscript(v, k, st)
        return v

    def store(self, root, path, v, st, node):
        self.n_stores += 1
        if root.atom is not None:
            for l in vg.leaves(root):
                cond = apply(lambda x: boolv(x is l), root)
                if l.p[0] != 'r':
                    continue
                old = content(st, l.p[1])
                self.store(l, path, v, st, node)
                st.heap[l.p[1]] = ite(cond, st.heap[l.p[1]], old)
            return
        v = self.rv(v, st) if not self.keep_ref(v) else v
        oid = root.p[1]
        oid, full = entry_array(st, oid, root.p[2] + path)
        base = content(st, oid)
        if has_ref(base) and not (base.atom is None and base.p[0] in
                                  ('arr', 't')):
            base = self.rv(base, st)
        # conditional selector
        for n, k in enumerate(full):
            c = [j for j, x in enumerate(k) if x.__class__ is tuple
                 and x[0] == 'cond'] if k[0] == 'tu' else ()
            if c:
                j = c[0]
                idx = CONDKEY[k[j][1]]
                new = base
                for l in vg.leaves(idx):
                    p2 = full[:n] + (k[:j] + (self.key_leaf(l),)
                                     + k[j + 1:],) + full[n + 1:]
                    st.heap[oid] = base
                    self.store(leaf('r', oid, ()), p2, v, st, node)
                    new = ite(apply(lambda x: boolv(x is l), idx),
                              st.heap[oid], new)
                st.heap[oid] = new
                return
        ck = [k for k in full if k[0] == 'cond']
        if ck:
            idx = CONDKEY[ck[0][1]]
            new = base
            for l in vg.leaves(idx):
                cond = apply(lambda x: boolv(x is l), idx)
                kk = self.key_leaf(l)
                p2 = tuple(kk if k is ck[0] else k for k in full)
                new = ite(cond, store_val(base, p2, v), new)
            st.heap[oid] = new
        else:
            st.heap[oid] = store_val(base, full, v)
        st.wloc[('h', oid)] = self.loc(node)

    def keep_ref(self, v):
        return v.atom is None and v.p[0] in ('r', 't', 'o') and has_ref(v) \
            and False

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            f = self.stack[-1][0]
            if f.cls is not None:
                return '_' + f.cls.name.lstrip('_') + name
        return name

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return self.unk(e, 'expression ' + type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boolv(v)
        if isinstance(v, (int, float)):
            return cnum(v)
        if isinstance(v, str):
            return leaf('s', v)
        if v is Ellipsis:
            return leaf('sl', None, None, None)
        return num(atom_fp('const', repr(v)))

    def ev_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fn = self.stack[-1][0]
        r = fn.module.resolve(e.id)
        if r is not None:
            return self.resolved(r, e.id, st)
        return leaf('o', 'ext:builtins.' + e.id, ('ext', 'builtins.' + e.id))

    def ev_Attribute(self, e, st):
        v = self.ev(e.value, st)
        name = self.mangle(e.attr)
        if v.atom is None:
            return self.getattr_leaf(v, name, st, e)
        return safe_apply(lambda l: self.getattr_leaf(l, name, st, e), v)

    def ev_Tuple(self, e, st):
        return self.seq('tuple', e.elts, st)

    def ev_List(self, e, st):
        return self.new_obj(st, self.seq('list', e.elts, st))

    def ev_Set(self, e, st):
        return num(atom_fp('set', *sorted(
            dd_fp(self.rv(self.ev(x, st), st)) for x in e.elts)))

    def seq(self, kind, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.rv(self.ev(x.value, st), st)
                if v.atom is None and v.p[0] == 't':
                    out.extend(v.p[2])
                else:
                    out.append(num(atom_fp('starred', dd_fp(v))))
            else:
                out.append(self.ev(x, st))
        return leaf('t', kind, tuple(out))

    def ev_Dict(self, e, st):
        base = num(EMPTYDICT)
        for k, v in zip(e.keys, e.values):
            if k is None:
                base = dict_merge(base, self.rv(self.ev(v, st), st))
                continue
            kv = self.rv(self.ev(k, st), st)
            x = self.ev(v, st)
            if kv.atom is not None and all(
                    l.p[0] == 's' for l in vg.leaves(kv)):
                base = apply(lambda b, l: store_val(
                    b, (self.key_leaf(l),), x), base, kv)
            else:
                base = store_val(base, (self.key_val(kv),), x)
        return self.new_obj(st, base)

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.rv(self.ev(v.value, st), st)
                if v.format_spec is not None or v.conversion not in (
                        -1, 115):
                    x = (x, '%s!%d' % (ast.unparse(v.format_spec)
                                       if v.format_spec else '',
                                       v.conversion))
                parts.append(x)
            else:
                parts.append(leaf('s', v.value))
        return strjoin(parts)

    def ev_Slice(self, e, st):
        a = [None if x is None else self.rv(self.ev(x, st), st)
             for x in (e.lower, e.upper, e.step)]
        return self.mk_slice([None if x is NONE else x for x in a])

    def mk_slice(self, a):
        for i, x in enumerate(a):
            if x is not None and x.atom is not None and vg.dd_size(x) < 12:
                return safe_apply(lambda l: self.mk_slice(
                    a[:i] + [None if l is NONE else l] + a[i + 1:]), x)
        return leaf('sl', *a)

    def ev_UnaryOp(self, e, st):
        v = self.rv(self.ev(e.operand, st), st)
        if isinstance(e.op, ast.Not):
            return not_(truth(v))
        if isinstance(e.op, ast.USub):
            return vg.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        # ~mask
        ls = vg.leaves(v)
        if all(l.p[0] == 'b' for l in ls):
            return not_(v)
        return not_(truth(v))

    def ev_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), st)

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            ka = self.lit(a, st)
            kb = self.lit(b, st)
            if ka is not None and kb is not None and ka.p[0] == kb.p[0]:
                if ka.p[0] == 't' and 'array' not in (ka.p[1], kb.p[1]):
                    return leaf('t', ka.p[1], ka.p[2] + kb.p[2])
                if ka.p[0] == 's':
                    return leaf('s', ka.p[1] + kb.p[1])
        if isinstance(op, ast.Mult):
            # a short sequence repeated a known number of times
            for x, y in ((a, b), (b, a)):
                k = self.lit(x, st)
                n = self.rv(y, st)
                n = vg.CONST.get(n.p[1]) if n.atom is None and \
                    n.p[0] == 'n' else None
                if k is not None and k.p[0] == 't' and k.p[1] in (
                        'list', 'tuple') and n is not None and \
                        n == int(n) and 0 <= n * len(k.p[2]) <= 16:
                    return leaf('t', k.p[1], k.p[2] * int(n))
        a, b = self.rv(a, st), self.rv(b, st)
        if isinstance(op, ast.Add):
            if self.stringy(a) or self.stringy(b):
                return safe_apply(lambda x, y: strjoin([x, y]), a, b)
            return vg.add(a, b)
        if isinstance(op, ast.Sub):
            return vg.sub(a, b)
        if isinstance(op, ast.Mult):
            return vg.mul(a, b)
        if isinstance(op, ast.Div):
            return vg.div(a, b)
        if isinstance(op, ast.Pow):
            return vg.power(a, b)
        if isinstance(op, ast.BitAnd):
            return and_(truth(a), truth(b))
        if isinstance(op, ast.BitOr):
            return or_(truth(a), truth(b))
        nm = {ast.Mod: 'mod', ast.FloorDiv: 'floordiv'}.get(
            type(op), type(op).__name__)

        def f(x, y):
            g = atom_fp(nm, to_fp(x), to_fp(y))
            if vg.is_scalar(to_fp(x)) and vg.is_scalar(to_fp(y)):
                vg.SCALAR.add(g)
            return num(g)
        return safe_apply(f, a, b)

    def lit(self, v, st):
        if v.atom is not None:
            return None
        if v.p[0] == 'r' and not v.p[2]:
            v = content(st, v.p[1])
            if v.atom is not None:
                return None
        if v.p[0] in ('t', 's'):
            return v
        return None

    def stringy(self, v):
        for l in vg.leaves(v) if v.atom is not None else [v]:
            if l.p[0] == 's':
                return True
            if l.p[0] == 'n':
                n = vg.NODE.get(l.p[1])
                if n is not None and n[0] in ('fstr', 'strfmt'):
                    return True
        return False

    def ev_BoolOp(self, e, st):
        vals = []
        # short circuit matters only for side effects; values are pure here
        for x in e.values:
            vals.append(self.rv(self.ev(x, st), st))
        allbool = all(all(l.p[0] == 'b' for l in vg.leaves(v)) for v in vals)
        if allbool:
            r = vals[0]
            for v in vals[1:]:
                r = and_(r, v) if isinstance(e.op, ast.And) else or_(r, v)
            return r
        r = vals[-1]
        for v in reversed(vals[:-1]):
            t = truth(v)
            if isinstance(e.op, ast.And):
                r = ite(t, r, v if not allbool else FALSE)
            else:
                r = ite(t, v, r)
        return r

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotEq, ast.Eq)) and \
                isinstance(e.left, (ast.Name, ast.Attribute)) and \
                ast.dump(e.left) == ast.dump(e.comparators[0]):
            v = self.rv(left, st)
            v = vg.safe_apply(lambda l: FALSE if l.p[0] != 'n' or
                              l.p[1] in vg.CONST else
                              boolatom('isnan', to_fp(l)), v)
            return v if isinstance(e.ops[0], ast.NotEq) else not_(v)
        for op, c in zip(e.ops, e.comparators):
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                    c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                    c.func.attr == 'keys' and not c.args and not c.keywords:
                c = c.func.value        # among the keys of it
            right = self.ev(c, st)
            r = and_(r, self.compare(op, left, right, st))
            left = right
        return r

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(self.rv(a, st), self.rv(b, st))
            return r if isinstance(op, ast.In) else not_(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.rv(a, st), self.rv(b, st)
            r = cmp_('==', a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        a, b = self.rv(a, st), self.rv(b, st)
        nm = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
              ast.Eq: '==', ast.NotEq: '!='}[type(op)]
        return cmp_(nm, a, b)

    def contains(self, a, b):
        def f(x, y):
            if y.p[0] == 't':
                r = FALSE
                for it in y.p[2]:
                    r = or_(r, cmp_('==', x, it))
                return r
            if y.p[0] == 's' and x.p[0] == 's':
                return boolv(x.p[1] in y.p[1])
            if y.p[0] == 'arr' and x.p[0] == 's':
                for k, v in y.p[2]:
                    if k == ('k', x.p[1]):
                        return TRUE
                if y.p[1] == EMPTYDICT and all(
                        k[0] == 'k' for k, _ in y.p[2]):
                    return FALSE
                return boolatom('in', to_fp(x), y.p[1])
            if y.p[0] == 'arr' and x.p[0] == 'n' and is_dict(y.p[1]):
                kx = self.key_leaf(x)
                if kx[0] == 'i':
                    if any(k == kx for k, v in y.p[2]):
                        return TRUE
                    if all(k[0] in 'ki' for k, _ in y.p[2]):
                        return FALSE if y.p[1] == EMPTYDICT else \
                            boolatom('in', to_fp(x), y.p[1])
            n = vg.NODE.get(to_fp(y))
            if n is not None and n[0] == 'set':
                r = FALSE
                for it in n[1]:
                    r = or_(r, cmp_('==', x, num(it)))
                return r
            return boolatom('in', to_fp(x), to_fp(y))
        return safe_apply(f, a, b)

    def ev_IfExp(self, e, st):
        c = truth(self.rv(self.ev(e.test, st), st))
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        tested(c)
        old = set(st.heap)
        v = self.within(c, self.ev, e.body, st)
        w = self.within(not_(c), self.ev, e.orelse, st)
        return self.one_of(c, v, w, old, st) or ite(c, v, w)

    def one_of(self, c, v, w, old, st):
        """one new object in place of the two made for either case"""
        ks = [x.p[1] if isinstance(x, vg.Val) and x.atom is None and
              x.p[0] == 'r' and not x.p[2] else None for x in (v, w)]
        if ks[0] == ks[1] or any(
                k is None or k[0] != 'N' or k in old or k not in st.heap
                for k in ks):
            return None
        for d in (st.env, st.bind, st.heap):
            if any(isinstance(x, vg.Val) and mentions(x, k)
                   for x in d.values() for k in ks) or any(
                    isinstance(x, tuple) and x not in ks and k in x
                    for x in d for k in ks):
                return None
        self.fresh += 1
        new = ('N', self.fresh)
        st.heap[new] = ite(c, st.heap.pop(ks[0]), st.heap.pop(ks[1]))
        for m in (self.lens, self.shapes):
            if ks[0] in m and ks[1] in m and m[ks[0]] == m[ks[1]]:
                m[new] = m[ks[0]]
        for k in ks:
            if ('h', k) in st.wloc:
                st.wloc[('h', new)] = st.wloc[('h', k)]
        return leaf('r', new, ())

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def ev_Lambda(self, e, st):
        f = Func(e, self.stack[-1][0].module, self.stack[-1][0].cls,
                 closure=dict(st.env))
        h = hash(tuple(sorted((k, v.id) for k, v in st.env.items())))
        return leaf('o', 'lambda:%d:%d' % (id(e), h), f)

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_Subscript(self, e, st):
        base = self.ev(e.value, st)
        return self.subscript(base, self.key_of(e.slice, st), st)

    def subscript(self, base, key, st):
        if key[0] == 'm' and key[1] in MASK:
            # one of two, by a truth value
            k = self.lit(base, st)
            if k is not None and k.p[0] == 't' and k.p[1] in (
                    'tuple', 'list') and len(k.p[2]) > 1:
                return ite(MASK[key[1]], k.p[2][1], k.p[2][0])
        if key[0] == 'cond':
            idx = CONDKEY[key[1]]
            return safe_apply(lambda l: self.subscript(
                base, self.key_leaf(l), st), idx)
        if key[0] == 'tu':
            for n, k in enumerate(key[1:], 1):
                if k[0] == 'cond':
                    return safe_apply(lambda l: self.subscript(
                        base, key[:n] + (self.key_leaf(l),) + key[n + 1:],
                        st), CONDKEY[k[1]])
        if base.atom is not None:
            if any(l.p[0] == 'r' for l in vg.leaves(base)):
                return safe_apply(lambda l: self.subscript(l, key, st), base)
            return select_val(base, key)
        p = base.p
        if p[0] == 'r':
            view = key[0] == 'sl' or (key[0] == 'tu' and any(
                k[0] == 'sl' for k in key[1:]))
            if view:
                c = content(st, p[1])
                if not p[2] and c.atom is None and c.p[0] == 't' and \
                        c.p[1] != 'array' and key_const(key):
                    return select_val(c, key)
                return leaf('r', p[1], norm_path(p[2] + (key,)))
            c = content(st, p[1])
            for k in p[2]:
                c = select_val(c, k)
            r = lookup(c, key, st)
            if r is None:
                r = select_val(c, key)
            if has_ref(r):
                return r
            # aliasing: element object was itself modified through a handle
            if r.atom is None and r.p[0] == 'n' and \
                    ('v', r.p[1]) in st.heap:
                return leaf('r', ('v', r.p[1]), ())
            return r
        if p[0] == 'n' and ('v', p[1]) in st.heap:
            return self.subscript(leaf('r', ('v', p[1]), ()), key, st)
        r = lookup(base, key, st)
        if r is not None:
            return r
        return select_val(base, key)

    def key_of(self, s, st):
        v = self.ev(s, st)
        return self.key_val(self.rv(v, st))

    def key_val(self, v):
        if v.atom is not None:
            if all(l.p[0] == 'b' for l in vg.leaves(v)):
                MASK[v.h] = v
                return ('m', v.h)
            CONDKEY[v.h] = v
            return ('cond', v.h)
        return self.key_leaf(v)

    def key_leaf(self, v):
        p = v.p
        if p[0] == 'n':
            c = vg.CONST.get(p[1])
            if c is not None and c.denominator == 1:
                return ('i', int(c))
            if p[1] in vg.DDEXP:
                d = vg.DDEXP[p[1]]
                if all(l.p[0] == 'b' for l in vg.leaves(d)):
                    MASK[d.h] = d
                    return ('m', d.h)
            return ('v', p[1])
        if p[0] == 'b':
            return ('i', int(p[1]))
        if p[0] == 's':
            return ('k', p[1])
        if p[0] == 'sl':
            out = []
            for x in p[1:]:
                if x is None:
                    out.append(None)
                elif x.atom is None and x.p[0] == 'n' and \
                        x.p[1] in vg.CONST and \
                        vg.CONST[x.p[1]].denominator == 1:
                    out.append(int(vg.CONST[x.p[1]]))
                else:
                    out.append(('v', dd_fp(x)))
            if out[0] == 0:
                out[0] = None
            if out[2] == 1:
                out[2] = None
            # x[n:n+1] of a symbolic n is a one element view; keep as is
            return ('sl',) + tuple(out)
        if p[0] == 't':
            return ('tu',) + tuple(self.key_val(x) for x in p[2])
        if p[0] == 'none':
            return ('nx',)
        return ('v', to_fp(v))

    # -------------------------------------------------------- comprehensions
    def comp(self, kind, e, elts, st):
        inner = st.copy()
        self.loopdepth += 1
        try:
            return self._comp(kind, e.generators, elts, inner, st)
        finally:
            self.loopdepth -= 1

    def _comp(self, kind, gens, elts, inner, st):
        g = gens[0]
        self.loopdepth -= 1
        it = self.iter_of(g.iter, inner)
        self.loopdepth += 1
        if it.items is not None and len(it.items) <= 80 and len(gens) == 1:
            out = []
            ok = True
            conds = []
            for x in it.items:
                self.assign(g.target, x, inner, g.target)
                c = TRUE
                for i in g.ifs:
                    c = and_(c, truth(self.rv(self.ev(i, inner), inner)))
                if c is FALSE:
                    continue
                if c is not TRUE:
                    ok = False
                    break
                vs = [self.ev(el, inner) for el in elts]
                out.append(vs[0] if len(vs) == 1
                           else leaf('t', 'tuple', tuple(vs)))
            if ok:
                if kind == 'dict':
                    base = num(EMPTYDICT)
                    for t in out:
                        base = store_val(base, (self.key_val(self.rv(
                            t.p[2][0], inner)),), t.p[2][1])
                    return self.new_obj(st, base)
                st.heap.update({k: v for k, v in inner.heap.items()
                                if k[0] == 'N'})
                return leaf('t', 'list', tuple(out))
            it = Iter(it.fp, lambda i: num(n_sel(it.fp, ('v', i.p[1]))))
        iota = num(atom_fp('iota', self.loopdepth, it.fp, scalar=True))
        self.domains.add(it.fp)
        self.assign(g.target, it.make(iota), inner, g.target)
        c = it.cond
        for i in g.ifs:
            c = and_(c, truth(self.rv(self.ev(i, inner), inner)))
        if len(gens) > 1:
            self.loopdepth += 1
            sub = self._comp(kind, gens[1:], elts, inner, st)
            self.loopdepth -= 1
            v = dd_fp(self.rv(sub, inner))
        else:
            v = tuple(dd_fp(self.rv(self.ev(el, inner), inner))
                      for el in elts)
        return comp_val(kind, it.fp, v, c)

    def ev_ListComp(self, e, st):
        r = self.comp('list', e, [e.elt], st)
        if r.atom is None and r.p[0] == 't':
            return self.new_obj(st, r)
        return r

    def ev_GeneratorExp(self, e, st):
        return self.comp('gen', e, [e.elt], st)

    def ev_SetComp(self, e, st):
        return self.comp('set', e, [e.elt], st)

    def ev_DictComp(self, e, st):
        return self.comp('dict', e, [e.key, e.value], st)

    # ------------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super' and f.id not in st.env:
            fn = self.stack[-1][0]
            first = None
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if names:
                first = st.env.get(names[0])
            cls = None
            if first is not None and first.atom is None:
                cls = self.class_of(self.ident(first, st))
            if cls is None or fn.cls is None:
                return num(atom_fp('super'))
            return leaf('o', 'super:%s:%s' % (cls.name, fn.cls.name),
                        ('super', cls, fn.cls, first))
        callee = self.ev(f, st)
        args, kw, starkw = self.eval_args(e, st)
        if callee.atom is not None:
            return self.call_cond(callee, args, kw, starkw, st, e)
        return self.call_leaf(callee, args, kw, starkw, st, e)

    def eval_args(self, e, st):
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                lv = self.lit(v, st)
                if lv is not None and lv.p[0] == 't':
                    args.extend(lv.p[2])
                    continue
                ex = self.star_hook(self, v, st) if self.star_hook else None
                if ex is not None:
                    args.extend(ex)
                else:
                    args.append(num(atom_fp('starred',
                                            dd_fp(self.rv(v, st)))))
            else:
                args.append(self.ev(x, st))
        kw = {}
        starkw = None
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                dv = self.rv(d, st)
                if dv.atom is None and dv.p[0] == 'arr' and \
                        dv.p[1] == EMPTYDICT and all(
                            kk[0] == 'k' for kk, _ in dv.p[2]):
                    for kk, x in dv.p[2]:
                        kw[kk[1]] = x
                elif dv.atom is None and dv.p == ('n', EMPTYDICT):
                    pass
                else:
                    starkw = d
            else:
                kw[k.arg] = self.ev(k.value, st)
        return args, kw, starkw

    def call_cond(self, callee, args, kw, starkw, st, e):
        """call through a conditional function value"""
        acc = None
        ls = vg.leaves(callee)
        pre = st.copy()
        res = None
        cur = None
        for l in ls:
            cond = apply(lambda x: boolv(x is l), callee)
            s2 = pre.copy()
            r = self.call_leaf(l, args, kw, starkw, s2, e)
            if cur is None:
                cur, res = s2, r
            else:
                res = ite(cond, r, res)
                cur = merge(cond, s2, cur)
        for a in ('heap', 'bind', 'events', 'exc', 'raises', 'wloc'):
            setattr(st, a, getattr(cur, a))
        return res

    def box_args(self, fn, skip, args, kw, st, e):
        """a local array which the callee writes into gets an identity"""
        if not isinstance(e, ast.Call) or isinstance(fn.node, ast.Lambda):
            return args
        w = stored_params(fn.node)
        if not w:
            return args
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]

        def box(x, v):
            if isinstance(x, ast.Name) and st.env.get(x.id) is v and \
                    v.atom is None and (v.p[0] == 'arr' or (
                        v.p[0] == 'n' and vg.NODE.get(v.p[1], ('',))[0]
                        not in ('sel', 'attr', 'param'))):
                v = st.env[x.id] = self.new_obj(st, v)
            elif isinstance(x, ast.Name) and st.env.get(x.id) is v and \
                    v.atom is not None:
                # one of several arrays
                ls = vg.leaves(v)
                if any(l.p[0] == 'arr' for l in ls) and all(
                        l.p[0] in ('arr', 'r') for l in ls) or all(
                        l.p[0] == 'arr' or l.p[0] == 'n' and
                        l.p[1] not in vg.CONST and
                        l.p[1] not in vg.SCALAR and vg.NODE.get(
                            l.p[1], ('',))[0] not in (
                            'sel', 'attr', 'param') for l in ls):
                    v = st.env[x.id] = vg.apply(
                        lambda l: l if l.p[0] == 'r' else
                        self.new_obj(st, l), v)
            return v
        args = list(args)
        if not any(isinstance(x, ast.Starred) for x in e.args) and \
                len(e.args) == len(args):
            for i, (x, v) in enumerate(zip(e.args, args)):
                if i < len(pos) and pos[i] in w:
                    args[i] = box(x, v)
        for k in e.keywords:
            if k.arg in w and k.arg in kw:
                kw[k.arg] = box(k.value, kw[k.arg])
        return args

    def call_leaf(self, callee, args, kw, starkw, st, e):
        p = callee.p
        if p[0] == 'o':
            o = p[2]
            if isinstance(o, Func):
                if o.name in self.no_inline:
                    args, kw = positional(o, 0, args, kw)
                    return self.opaque_call(o.name, None, args, kw, st, e)
                args = self.box_args(o, 0, args, kw, st, e)
                return self.call_func(o, args, kw, starkw, st, e)[0]
            if isinstance(o, Bound):
                if o.fn.name in self.havoc:
                    # abstract callee: unknown new values of the listed fields
                    r = self.opaque_call(o.fn.name, o.selfv, args, kw, st, e)
                    for at in self.havoc[o.fn.name]:
                        self.set_attr(o.selfv, at, num(atom_fp(
                            'param', at + '_by_' + o.fn.name,
                            scalar=True)), st, e)
                    return r
                if o.fn.name in self.no_inline:
                    args, kw = positional(o.fn, 1, args, kw)
                    return self.opaque_call(o.fn.name, o.selfv, args, kw, st,
                                            e)
                if o.fn.is_classmethod() or True:
                    args = self.box_args(o.fn, 1, args, kw, st, e)
                    return self.call_func(o.fn, [o.selfv] + args, kw, starkw,
                                          st, e)[0]
            if isinstance(o, Partial):
                k2 = dict(o.kw)
                k2.update(kw)
                return self.call_leaf(o.fn, list(o.args) + args, k2, starkw,
                                      st, e)
            if isinstance(o, Class):
                return self.construct(o, args, kw, starkw, st, e)
            if isinstance(o, tuple) and o[0] == 'ext':
                return self.ext_call(o[1], args, kw, starkw, st, e)
        # method on an opaque value?
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st)
            return self.method_call(recv, e.func.attr, args, kw, st, e)
        nm = 'call:' + vg.show(callee, 3)
        return self.opaque_call(nm, callee, args, kw, st, e)

    def construct(self, cls, args, kw, starkw, st, e):
        f = atom_fp('instance', cls.name, *[
            dd_fp(self.rv(a, st)) for a in args])
        self.event(cls.name, None, args, kw, st, e)
        return num(f)

    def event(self, name, recv, args, kw, st, e):
        st.events.append(Event(
            not_(st.exc) if False else TRUE, name,
            None if recv is None else self.rv(recv, st),
            tuple(self.rv(a, st) for a in args) + tuple(
                self.rv(self.getattr_leaf(leaf('r', ('p', 'self'), ()), w,
                                          st, e), st) for w in self.watch),
            {k: self.rv(v, st) for k, v in kw.items()}, self.loc(e)))

    def effect_of(self, name):
        return self.effects.get('call:' if name.startswith('call:') else
                                name.lstrip('.'))

    def effect_reads(self, name, st):
        """state beyond its arguments that an abstract callee depends on"""
        eff = self.effect_of(name)
        if not eff:
            return []
        rd = eff.get('reads', ())
        r = [(k, dd_fp(st.heap[k])) for k in sorted(
            x for x in st.heap if x[0] == 'a' and x[2] in rd)]
        r += [(k, dd_fp(self.rv(st.bind[k], st))) for k in sorted(
            x for x in st.bind if x[1] in rd)]
        return r

    def effect_writes(self, name, f, st, e):
        """unknown new contents of the state an abstract callee changes"""
        eff = self.effect_of(name)
        if not eff:
            return
        sv = leaf('r', ('p', 'self'), ())
        for at in eff.get('writes', ()):
            o = self.getattr_leaf(sv, at, st, e)
            if o.atom is None and o.p[0] == 'r':
                st.heap[o.p[1]] = num(atom_fp('eff', at, f))
                st.wloc[('h', o.p[1])] = self.loc(e)
        for at in eff.get('sets', ()):
            self.set_attr(sv, at, num(atom_fp('eff', at, f, scalar=True)),
                          st, e)

    def opaque_call(self, name, recv, args, kw, st, e):
        self.event(name, recv, args, kw, st, e)
        r = [] if recv is None else [dd_fp(self.rv(recv, st))]
        eff = self.effect_reads(name, st)
        f = atom_fp('call:' + name, *(r + eff + [
            dd_fp(self.rv(a, st)) for a in args] + [
            (k, dd_fp(self.rv(v, st))) for k, v in sorted(kw.items())]))
        self.effect_writes(name, f, st, e)
        return num(f)

    # ------------------------------------------------------- external calls
    def ext_call(self, name, args, kw, starkw, st, e):
        short = name
        for pre in ('numpy.', 'np.', 'math.'):
            if name.startswith(pre):
                short = 'np.' + name[len(pre):]
        if short.startswith('np.'):
            return self.np_call(short[3:], args, kw, st, e)
        if name.startswith('builtins.'):
            return self.builtin(name[9:], args, kw, st, e)
        if name in ('functools.partial',):
            return leaf('o', 'partial:%s:%s' % (
                args[0].h, H(*[self.rv(a, st).h for a in args[1:]])),
                Partial(args[0], args[1:], kw))
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.new_obj(st, self.rv(args[0], st))
        if name in ('collections.OrderedDict',):
            if not args and not kw:
                return self.new_obj(st, num(EMPTYDICT))
            return self.new_obj(st, self.rv(args[0], st))
        pure = name.split('.')[0] in ('pandas', 'scipy', 'math', 'warnings',
                                      'itertools', 'operator')
        rvs = [dd_fp(self.rv(a, st)) for a in args]
        kvs = [(k, dd_fp(self.rv(v, st))) for k, v in sorted(kw.items())]
        if not pure:
            self.event(name, None, args, kw, st, e)
        r = num(atom_fp('call:' + name, *(rvs + kvs)))
        if name in ('pandas.DataFrame', 'pandas.Series'):
            # a fresh mutable object: writes through any handle reach it
            return self.new_obj(st, r)
        return r

    NPSIG = {'arange': ('start', 'stop', 'step'),
             'linspace': ('start', 'stop', 'num'),
             'interp': ('x', 'xp', 'fp'), 'repeat': ('a', 'repeats'),
             'append': ('arr', 'values'), 'full': ('shape', 'fill_value'),
             'full_like': ('a', 'fill_value')}

    def np_args(self, n, args, kw):
        """positional form of the arguments"""
        sig = self.NPSIG[n]
        if n == 'arange' and len(args) == 1 and 'stop' in kw:
            pass
        elif n == 'arange' and len(args) == 1:
            args = [VZERO] + list(args)
        elif n == 'arange' and not args and 'stop' not in kw:
            args, kw = [VZERO, kw.get('start', NONE)], {
                k: v for k, v in kw.items() if k != 'start'}
        elif n == 'arange' and not args:
            kw = dict(kw)
            kw.setdefault('start', VZERO)
        args, kw = list(args), dict(kw)
        while len(args) < len(sig) and sig[len(args)] in kw:
            args.append(kw.pop(sig[len(args)]))
        if n == 'arange' and len(args) == 3 and args[2] is cnum(1):
            args.pop()
        if n == 'arange' and len(args) == 2 and args[0] is VZERO:
            args.pop(0)
        return args, kw

    def np_call(self, n, args, kw, st, e):
        if n in self.NPSIG:
            args, kw = self.np_args(n, args, kw)
        A = [self.rv(a, st) for a in args]
        if n == 'append' and len(A) == 3:
            kw = dict(kw, axis=args[2])
            args, A = args[:2], A[:2]
        if n == 'concatenate' and A and A[0].atom is None and \
                A[0].p[0] == 't' and len(A[0].p[2]) > 1 and \
                not set(kw) - {'axis'} and (
                A[1] if len(A) > 1 else self.rv(kw.get('axis', VZERO), st)
                ) is VZERO:
            # the pieces one after the other
            r = A[0].p[2][0]
            for x in A[0].p[2][1:]:
                r = self.np_call('append', [r, x], {'axis': VZERO}, st, e)
            return r
        out = kw.get('out')
        r = None
        if self.alloc and n in ('zeros', 'ones', 'empty', 'full'):
            self.event('alloc', None, args[:1] or [kw['shape']], {}, st, e)
        if n in ('abs', 'absolute', 'fabs'):
            r = vg.vabs(A[0])
        elif n in ('minimum', 'fmin'):
            r = vg.vmin(A[0], A[1])
        elif n in ('maximum', 'fmax'):
            r = vg.vmax(A[0], A[1])
        elif n == 'clip':
            lo = A[1] if len(A) > 1 else self.rv(kw['a_min'], st)
            hi = A[2] if len(A) > 2 else self.rv(kw['a_max'], st)
            r = A[0]
            if lo is not NONE:
                r = vg.vmax(r, lo)
            if hi is not NONE:
                r = vg.vmin(r, hi)
            if len(args) > 3:
                out = args[3]
        elif n == 'where' and len(A) == 3:
            r = ite(truth(A[0]), A[1], A[2])
        elif n == 'sqrt':
            r = vg.power(A[0], cnum(0.5))
        elif n == 'square':
            r = vg.mul(A[0], A[0])
        elif n in ('power', 'pow', 'float_power'):
            r = vg.power(A[0], A[1])
        elif n == 'add':
            r = vg.add(A[0], A[1])
        elif n == 'subtract':
            r = vg.sub(A[0], A[1])
        elif n == 'multiply':
            r = vg.mul(A[0], A[1])
        elif n in ('divide', 'true_divide'):
            r = vg.div(A[0], A[1])
        elif n in ('negative',):
            r = vg.neg(A[0])
        elif n == 'sign':
            r = ite(cmp_('<', A[0], VZERO), cnum(-1),
                    ite(cmp_('>', A[0], VZERO), cnum(1), VZERO))
        elif n in ('logical_not', 'invert'):
            r = not_(truth(A[0]))
        elif n == 'logical_and':
            r = and_(truth(A[0]), truth(A[1]))
        elif n == 'logical_or':
            r = or_(truth(A[0]), truth(A[1]))
        elif n in ('greater', 'less', 'greater_equal', 'less_equal', 'equal',
                   'not_equal'):
            r = cmp_({'greater': '>', 'less': '<', 'greater_equal': '>=',
                      'less_equal': '<=', 'equal': '==',
                      'not_equal': '!='}[n], A[0], A[1])
            if len(args) > 2:
                out = args[2]
        elif n in ('any', 'all'):
            return self.anyall(n, A[0], kw, st)
        elif n == 'isnan':
            return safe_apply(lambda l: FALSE if to_fp(l) in vg.CONST
                              else boolatom('isnan', to_fp(l)), A[0])
        elif n in ('zeros', 'ones', 'empty', 'full', 'zeros_like',
                   'ones_like', 'full_like', 'empty_like'):
            val = {'z': VZERO, 'o': cnum(1), 'e': VZERO}.get(n[0])
            if n.startswith('full'):
                val = A[1] if len(A) > 1 else self.rv(kw['fill_value'], st)
            sh = None
            if n.endswith('_like'):
                ln = self.len_of(args[0], st) if args[0].atom is None else None
                sh = self.shape_of(args[0].p) if args[0].atom is None else None
                if sh and len(sh) > 1:
                    ln = None
            else:
                a0 = A[0] if A else self.rv(kw['shape'], st)
                ln = a0 if a0.atom is None and a0.p[0] == 'n' else None
                if a0.atom is None and a0.p[0] == 't':
                    sh = a0.p[2]
                    if len(sh) == 1:
                        ln = sh[0]
            r = self.new_obj(st, val, ln)
            if sh and len(sh) > 1:
                self.shapes[r.p[1]] = list(sh)
            return r
        elif n in ('array', 'asarray', 'ascontiguousarray', 'copy',
                   'asfortranarray', 'atleast_1d'):
            a = A[0]
            dt = A[1] if len(A) > 1 else self.rv(kw.get('dtype', NONE), st)
            if re.search(r'float(16|32)|half|single', vg.show(dt)):
                return self.new_obj(st, self.cast(a, dt))
            if a.atom is None and a.p[0] == 't' and not any(
                    x.atom is None and x.p[0] == 't' for x in a.p[2]):
                a = leaf('t', 'array', a.p[2])
            dt = A[1] if len(A) > 1 else kw.get('dtype')
            if dt is not None and re.search(r'\.u?int\d*$|\bu?int\d*$', str(
                    self.rv(dt, st).p[1] if self.rv(dt, st).atom is None
                    else '')):
                def trunc(l):
                    if l.p[0] != 'n' or vg.is_int(l.p[1]):
                        return l
                    return num(atom_fp('int', l.p[1],
                                       scalar=vg.is_scalar(l.p[1])))
                a = safe_apply(trunc, a)
            elif n in ('asarray', 'ascontiguousarray') and (
                    a.atom is not None or a.p[0] != 't') and not (
                    args[0].atom is None and args[0].p[0] == 'r' and
                    content(st, args[0].p[1]) is not a and args[0].p[2]):
                # an array stays the same memory
                return args[0]
            return self.new_obj(st, a, self.len_of(a, st)
                                if a.atom is None else None)
        elif n in ('float64', 'float32'):
            return A[0]
        elif n == 'copyto':
            self.store(args[0], (FULL,), A[1], st, e)
            return NONE
        elif n == 'put':
            self.store(args[0], (('at', 'flat'), self.key_val(A[1])), A[2],
                       st, e)
            return NONE
        elif n in ('int32', 'int64', 'intp'):
            return self.builtin('int', args, kw, st, e)
        else:
            k = [(k, dd_fp(self.rv(v, st))) for k, v in sorted(kw.items())
                 if k != 'out']
            if n in ('amax', 'amin'):
                n = n[1:]
            if n == 'count_nonzero':
                n, A = 'sum', [truth(A[0])]
            if n in ('sum', 'mean') and not k and len(A) == 1:
                z = self.short_sum(A[0])
                if z is not None:
                    return vg.div(z[0], cnum(z[1])) if n == 'mean' else z[0]
            if n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh',
                     'floor', 'ceil') and len(A) == 1:
                def g(l):
                    f = atom_fp('np.' + n, to_fp(l))
                    if vg.is_scalar(to_fp(l)):
                        vg.SCALAR.add(f)
                    return num(f)
                r = safe_apply(g, A[0])
            elif n == 'unravel_index' and not k:
                r = safe_apply(lambda *ls: num(atom_fp(
                    'np.' + n, *[to_fp(l) for l in ls])), *A)
            else:
                f = atom_fp('np.' + n, *([dd_fp(a) for a in A] + k))
                if n in ('sum', 'max', 'min', 'mean', 'prod', 'dot') and \
                        not k and len(A) == 1:
                    vg.SCALAR.add(f)
                r = num(f)
        if out is not None and out is not NONE:
            self.store(out, (FULL,), r, st, e)
            return out
        return r

    def short_sum(self, v):
        """(sum, length) over an array of known small length"""
        if v.atom is None and v.p[0] == 't' and 0 < len(v.p[2]) <= 6:
            xs = list(v.p[2])
            if not all(l.p[0] == 'n' for x in xs for l in vg.leaves(x)):
                return None
        else:
            n = {const_len(l.p[1]) if l.p[0] == 'n' else None
                 for l in vg.leaves(v)}
            if v.atom is not None or len(n) != 1:
                return None
            n = n.pop()
            if not n:
                return None
            xs = [select_val(v, ('i', i)) for i in range(n)]
        r = xs[0]
        for x in xs[1:]:
            r = vg.add(r, x)
        return r, len(xs)

    def anyall(self, n, v, kw, st):
        ax = [(k, dd_fp(self.rv(x, st))) for k, x in sorted(kw.items())]
        if v is TRUE or v is FALSE:
            return v
        if v.atom is None and v.p[0] == 't':
            r = FALSE if n == 'any' else TRUE
            for x in v.p[2]:
                t = truth(x)
                r = or_(r, t) if n == 'any' else and_(r, t)
            return r
        t = truth(v)
        c = t if n == 'any' else not_(t)
        def scal(a):
            n = vg.NODE.get(a[1], ('',))
            return vg.is_scalar(n[1][0] if n[0] in ('truth', 'isnan') else
                                a[1])
        sc = all(scal(a) for a in vg.atoms_of(t))
        if sc and vg.atoms_of(t) and not ax:
            return t
        r = boolatom('any', c.h, *ax)
        f = [a for a in vg.atoms_of(r)][0][1]
        vg.NODE[f] = ('any', tuple(vg.dd_fps(c)) + tuple(ax))
        ANYOF[f] = c
        return r if n == 'any' else not_(r)

    def builtin(self, n, args, kw, st, e):
        A = [self.rv(a, st) for a in args]
        if n in ('min', 'max') and len(A) >= 2:
            r = A[0]
            for x in A[1:]:
                q = vg.vmin(r, x) if n == 'min' else vg.vmax(r, x)
                # one number is picked by a test
                tested(cmp_('<', r, x))
                r = q
            return r
        if n in ('min', 'max', 'sum') and len(A) == 1 and not kw:
            if A[0].atom is None and A[0].p[0] == 'o' and isinstance(
                    A[0].p[2], Iter) and A[0].p[2].items:
                A = [leaf('t', 'tuple', tuple(
                    self.rv(x, st) for x in A[0].p[2].items))]
            if A[0].atom is None and A[0].p[0] == 't' and A[0].p[2]:
                r = A[0].p[2][0]
                for x in A[0].p[2][1:]:
                    r = {'min': vg.vmin, 'max': vg.vmax,
                         'sum': vg.add}[n](r, x)
                return r
            return num(atom_fp('np.' + n, dd_fp(A[0]), scalar=True))
        if n == 'locals' and not A:
            d = num(EMPTYDICT)
            for k, v in sorted(st.env.items()):
                if isinstance(v, vg.Val):
                    d = store_val(d, (('k', k),), v)
            return self.new_obj(st, d)
        if n == 'abs':
            return vg.vabs(A[0])
        if n == 'pow':
            return vg.power(A[0], A[1])
        if n == 'float':
            if A and A[0].atom is None and A[0].p[0] == 's':
                try:
                    return cnum(float(A[0].p[1]))
                except ValueError:
                    pass
            for l in vg.leaves(A[0]) if A else ():
                if l.p[0] == 'n':
                    vg.SCALAR.add(l.p[1])
            return A[0] if A else VZERO
        if n == 'bool':
            return truth(A[0])
        if n == 'int' and len(A) == 1 and not kw:
            def g(l):
                f = to_fp(l)
                if f in vg.CONST:
                    return cnum(int(vg.CONST[f]))
                return num(atom_fp('int', f, scalar=vg.is_scalar(f)))
            return safe_apply(g, A[0])
        if n == 'len':
            return safe_apply(lambda l: self.len_of(l, st), args[0])
        if n in ('any', 'all'):
            return self.anyall(n, A[0], {}, st)
        if n == 'isinstance':
            ts = A[1].p[2] if A[1].atom is None and A[1].p[0] == 't' \
                else (A[1],)
            r = FALSE
            for t in ts:
                r = or_(r, safe_apply(lambda l: isinst(l, t), A[0]))
            return r
        if n == 'type':
            k = static_type(A[0])
            if k is not None and len(k) == 1:
                return leaf('o', 'ext:builtins.' + k[0],
                            ('ext', 'builtins.' + k[0]))
            return num(atom_fp('typeof', dd_fp(A[0])))
        if n in ('str', 'repr', 'format', 'ascii'):
            if A and A[0].atom is None and A[0].p[0] == 's':
                return A[0]
            if len(A) == 1:
                return strjoin(A)
            return num(atom_fp('call:str', *[dd_fp(a) for a in A]))
        if n == 'iter' and len(A) == 1 and A[0].atom is None and \
                A[0].p[0] == 't':
            return self.new_obj(st, leaf('t', 'iter', A[0].p[2]))
        if n == 'next' and A and A[0].atom is None and A[0].p[0] == 't' and \
                A[0].p[1] == 'iter' and A[0].p[2] and \
                args[0].atom is None and args[0].p[0] == 'r':
            st.heap[args[0].p[1]] = leaf('t', 'iter', A[0].p[2][1:])
            return A[0].p[2][0]
        if n in ('tuple', 'list'):
            if not A:
                l = leaf('t', n, ())
                return l if n == 'tuple' else self.new_obj(st, l)
            if A[0].atom is None and A[0].p[0] == 't':
                l = leaf('t', n, A[0].p[2])
                return l if n == 'tuple' else self.new_obj(st, l)
            if A[0].atom is None and A[0].p[0] == 'o' and isinstance(
                    A[0].p[2], Iter) and A[0].p[2].items is not None:
                l = leaf('t', n, tuple(A[0].p[2].items))
                return l if n == 'tuple' else self.new_obj(st, l)
            x = e.args[0] if isinstance(e, ast.Call) and len(
                e.args) == 1 else None
            if A[0].atom is not None and isinstance(x, ast.Call) and \
                    isinstance(x.func, ast.Attribute) and not x.args and \
                    x.func.attr in ('items', 'keys', 'values') and \
                    isinstance(x.func.value, (ast.Name, ast.Attribute)):
                it = self.iter_of(x, st).plain
                A = [leaf('o', 'iter:%s:%d' % (x.func.attr, it.fp), it)]
            if A[0].atom is None and A[0].p[0] == 'o' and isinstance(
                    A[0].p[2], Iter) and A[0].p[2].items is None:
                it = A[0].p[2]
                iota = num(atom_fp('iota', self.loopdepth + 1, it.fp,
                                   scalar=True))
                A = [comp_val('list', it.fp, (dd_fp(self.rv(
                    it.make(iota), st)),), it.cond)]
                args = A
            if A[0].atom is None and A[0].p[0] == 'arr' and \
                    A[0].p[1] == EMPTYDICT and all(
                        k[0] == 'k' for k, _ in A[0].p[2]):
                l = leaf('t', n, tuple(leaf('s', k[1]) for k, _ in
                                       A[0].p[2]))
                return l if n == 'tuple' else self.new_obj(st, l)
            if n == 'list':
                o = self.new_obj(st, A[0])
                a = args[0]
                if a.atom is None and a.p[0] == 'r':
                    # as many items as the source has
                    self.listof[o.p[1]] = (A[0], self.len_of(a, st))
                return o
            return A[0]
        if n == 'sorted' and len(A) == 1 and not kw:
            its = A[0].p[2] if A[0].atom is None and A[0].p[0] == 't' else \
                [leaf('s', k[1]) for k, _ in A[0].p[2]] if \
                A[0].atom is None and A[0].p[0] == 'arr' and \
                A[0].p[1] == EMPTYDICT and all(
                    k[0] == 'k' for k, _ in A[0].p[2]) else None
            its = sort_items(its) or sort_few(its) if its else None
            if its is not None:
                return self.new_obj(st, leaf('t', 'list', tuple(its)))
        if n == 'dict':
            base = A[0] if A else num(EMPTYDICT)
            if A and args[0].atom is None and args[0].p[0] == 'r' and \
                    not args[0].p[2]:
                c = content(st, args[0].p[1])
                if c.atom is None and c.p[0] == 'arr':
                    base = c
            if base.atom is None and base.p[0] == 'o' and isinstance(
                    base.p[2], Iter):
                base = num(atom_fp('todict', dd_fp(base)))
            for k, v in kw.items():
                base = store_val(base, (('k', k),), v if v.atom is None
                                 and v.p[0] == 'r' else self.rv(v, st))
            return self.new_obj(st, base)
        if n == 'set':
            if A and A[0].atom is None and A[0].p[0] == 't':
                return num(atom_fp('set', *sorted(
                    dd_fp(x) for x in A[0].p[2])))
            return num(atom_fp('setof', *[dd_fp(a) for a in A]))
        if n in ('range', 'enumerate', 'zip', 'reversed', 'map', 'filter'):
            it = None
            if n != 'reversed':
                try:
                    it = self.iter_of(e, st).plain
                except Exception:
                    it = None
            if it is not None:
                if it.items is not None:
                    h = H('its', *[x.h for x in it.items])
                else:
                    h = H('itm', it.fp, it.make(num(atom_fp('iota', 'any'))).h)
                return leaf('o', 'iter:%d' % h, it)
            return num(atom_fp('call:' + n, *[dd_fp(a) for a in A]))
        if n in ('getattr',) and A[1].atom is None and A[1].p[0] == 's':
            nm = A[1].p[1]
            return safe_apply(lambda l: self.getattr_leaf(l, nm, st, e),
                              args[0])
        if n == 'getattr' and A[1].atom is not None and all(
                l.p[0] == 's' for l in vg.leaves(A[1])):
            return safe_apply(lambda o, l: self.getattr_leaf(
                o, l.p[1], st, e), args[0], A[1])
        if n in ('setattr',) and A[1].atom is None and A[1].p[0] == 's':
            self.set_attr(args[0], A[1].p[1], args[2], st, e)
            return NONE
        if n in ('print', 'breakpoint', 'input', 'open', 'exit', 'quit'):
            if n != 'print':
                self.event(n, None, args, kw, st, e)
            return NONE
        if n == 'slice':
            a = [None if x is NONE else x for x in A]
            if len(a) == 1:
                a = [None] + a + [None]
            elif len(a) == 2:
                a = a + [None]
            return self.mk_slice(a)
        if n == 'round':
            return num(atom_fp('round', *[dd_fp(a) for a in A]))
        if n == 'getattr' and not kw:
            return spread(lambda fps: num(atom_fp('call:' + n, *fps)), A)
        return num(atom_fp('call:' + n, *([dd_fp(a) for a in A] + [
            (k, dd_fp(self.rv(v, st))) for k, v in sorted(kw.items())])))

    def method_call(self, recv, name, args, kw, st, e):
        if recv.atom is not None and name in REDUCE and not has_ref(recv):
            return self.np_call(name, [recv] + args, kw, st, e)
        if recv.atom is not None and name in ('ravel', 'reshape', 'flatten',
                                              'astype', 'tolist', 'item',
                                              'index', 'split'):
            return safe_apply(lambda l: self.method_call(
                l, name, args, kw, st, e), recv)
        if recv.atom is not None and name == 'copy' and not args and not kw:
            return self.new_obj(st, self.rv(recv, st))
        A = [self.rv(a, st) for a in args]
        r = self.elementwise(recv, name, A, kw, st)
        if r is not None:
            return r
        if name in ('any', 'all') and recv.atom is not None and not A and \
                all(l.p[0] == 'b' for l in vg.leaves(recv)):
            return self.anyall(name, recv, kw, st)
        if recv.atom is not None and name in PURE_METHODS:
            return self.pure_method(recv, name, A, kw, st)
        if recv.atom is not None:
            return self.opaque_call('.' + name, recv, args, kw, st, e)
        if name in MUTATORS:
            return self.mutate(recv, name, args, A, kw, st, e)
        rc = self.rv(recv, st)
        if rc.atom is None and rc.p[0] == 's' and not kw and name in (
                'split', 'lower', 'upper', 'startswith', 'endswith', 'strip',
                'find', 'count', 'replace', 'rsplit', 'partition') and all(
                    a.atom is None and a.p[0] == 's' for a in A):
            r = getattr(rc.p[1], name)(*[a.p[1] for a in A])
            if isinstance(r, (list, tuple)):
                return leaf('t', type(r).__name__, tuple(
                    leaf('s', x) for x in r))
            return leaf('s', r) if isinstance(r, str) else (
                boolv(r) if isinstance(r, bool) else cnum(r))
        if name == 'copy' and not A:
            return self.new_obj(st, rc, self.len_of(recv, st))
        if name in ('get',) and A:
            k = self.key_val(A[0])
            d = A[1] if len(A) > 1 else NONE
            return ite(self.contains(A[0], rc), self.subscript(recv, k, st),
                       d)
        if name in ('any', 'all') and recv.atom is None:
            return self.anyall(name, rc, kw, st)
        if name in REDUCE or name in ('dot', 'round', 'repeat'):
            return self.np_call(name, [recv] + args, kw, st, e)
        if name in ('astype', 'item', 'tolist') or (
                name == 'to_numpy' and not A):
            if name == 'astype':
                return self.cast(rc, A[0] if A else self.rv(
                    kw.get('dtype', NONE), st))
            return rc
        if name in ('ravel', 'flatten') or (name == 'reshape'):
            k = ('at', name if name != 'flatten' else 'ravel') + tuple(
                dd_fp(a) for a in A)
            if k == ('at', 'reshape', vg.cfp(vg.Fraction(-1))):
                k = ('at', 'ravel')
            if k == ('at', 'ravel') and name != 'flatten':
                return recv       # element-wise view of the same cells
            if recv.p[0] == 'r' and name != 'flatten':
                return leaf('r', recv.p[1], recv.p[2] + (k,))
            return select_val(rc, k)
        if name == 'format' and rc.atom is None and rc.p[0] in ('s', 'n'):
            j = strformat(rc, A, {k: self.rv(v, st) for k, v in kw.items()})
            if j is not None:
                return j
            return num(atom_fp('strfmt', to_fp(rc), *(
                [dd_fp(a) for a in A] + [
                    (k, dd_fp(self.rv(v, st)))
                    for k, v in sorted(kw.items())])))
        if name in ('items', 'keys', 'values') and not A:
            it = self.iter_dict(recv, name, st)
            return leaf('o', 'iter:%s:%d' % (name, it.fp), it)
        if name == 'index' and rc.atom is None and rc.p[0] == 't' and A and \
                A[0].atom is None:
            for i, x in enumerate(rc.p[2]):
                if x is A[0]:
                    return cnum(i)
        if name not in PURE_METHODS and name not in self.pure:
            self.event('.' + name, leaf('n', self.ident(recv, st)) if
                       recv.p[0] == 'r' else rc, args, kw, st, e)
        rid = self.ident(recv, st) if recv.p[0] == 'r' and \
            recv.p[1] not in st.heap else dd_fp(rc)
        if name in PURE_METHODS:
            return self.pure_method(recv, name, A, kw, st)
        f = atom_fp('call:.' + name, rid, *(
            self.effect_reads(name, st) + [dd_fp(a) for a in A] + [
                (k, dd_fp(self.rv(v, st))) for k, v in sorted(kw.items())]))
        self.effect_writes(name, f, st, e)
        return num(f)

    ARITH = {'sub': 'sub', 'subtract': 'sub', 'mul': 'mul',
             'multiply': 'mul', 'div': 'div', 'truediv': 'div',
             'divide': 'div'}
    COMPARE = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==',
               'ne': '!='}

    def cast(self, v, dt):
        d = vg.show(dt)
        if 'int' in d:
            return num(atom_fp('int', dd_fp(v)))
        if re.search(r'float(16|32)|half|single|datetime64|timedelta64|'
                     r'category', d):
            return num(atom_fp('astype', dd_fp(v), dd_fp(dt)))
        return v

    def elementwise(self, recv, name, A, kw, st):
        """methods of arrays, series and tables which act cell by cell"""
        if name == 'abs' and not A and not kw:
            return vg.vabs(self.rv(recv, st))
        if name == 'clip':
            k = dict(zip(('lower', 'upper'), A))
            for n, v in kw.items():
                n = {'min': 'lower', 'max': 'upper', 'a_min': 'lower',
                     'a_max': 'upper'}.get(n, n)
                k[n] = self.rv(v, st)
            if k.pop('axis', NONE) is not NONE or set(k) - {'lower', 'upper'}:
                return None
            r = self.rv(recv, st)
            if k.get('lower', NONE) is not NONE:
                r = vg.vmax(r, k['lower'])
            if k.get('upper', NONE) is not NONE:
                r = vg.vmin(r, k['upper'])
            return r
        if len(A) == 1 and not kw and name in self.ARITH:
            return getattr(vg, self.ARITH[name])(self.rv(recv, st), A[0])
        if len(A) == 1 and not kw and name in self.COMPARE:
            return cmp_(self.COMPARE[name], self.rv(recv, st), A[0])
        if name in ('where', 'mask') and len(A) == 2 and not kw:
            r = self.rv(recv, st)
            c = truth(A[0])
            return ite(c, r, A[1]) if name == 'where' else ite(c, A[1], r)
        return None

    def pure_method(self, recv, name, A, kw, st):
        def obj(l):
            if l.p[0] == 'r' and l.p[1] not in st.heap:
                return num(self.ident(l, st))
            return self.rv(l, st)
        ks = sorted(kw)
        vals = [safe_apply(obj, recv)] + A + [self.rv(kw[k], st) for k in ks]

        def g(fps):
            n = 1 + len(A)
            return num(atom_fp('call:.' + name, *fps[:n],
                               *zip(ks, fps[n:])))
        return spread(g, vals)

    def mutate(self, recv, name, args, A, kw, st, e):
        if recv.p[0] != 'r':
            if recv.p[0] == 'n':
                recv = leaf('r', ('v', recv.p[1]), ())
            elif isinstance(e.func.value, ast.Name) and \
                    e.func.value.id in st.env:
                r = self.new_obj(st, recv)
                st.env[e.func.value.id] = r
                recv = r
            else:
                return NONE
        cur = self.read_path(leaf('r', recv.p[1], ()), recv.p[2], st)
        c = self.rv(cur, st) if not recv.p[2] else self.rv(recv, st)
        lit = c if c.atom is None and c.p[0] == 't' else None
        new = None
        ret = NONE
        if name == 'fill':
            new = A[0]
        elif lit is not None and name == 'append':
            new = leaf('t', lit.p[1], lit.p[2] + (A[0],))
        elif lit is not None and name == 'extend' and A[0].atom is None and \
                A[0].p[0] == 't':
            new = leaf('t', lit.p[1], lit.p[2] + A[0].p[2])
        elif lit is not None and name == 'insert' and A[0].atom is None and \
                A[0].p[1] in vg.CONST:
            l = list(lit.p[2])
            l.insert(int(vg.CONST[A[0].p[1]]), A[1])
            new = leaf('t', lit.p[1], tuple(l))
        elif lit is not None and name == 'remove' and A[0] in lit.p[2]:
            l = list(lit.p[2])
            l.remove(A[0])
            new = leaf('t', lit.p[1], tuple(l))
        elif lit is not None and name == 'pop' and lit.p[2] and not A:
            new = leaf('t', lit.p[1], lit.p[2][:-1])
            ret = lit.p[2][-1]
        elif lit is not None and name == 'pop' and len(A) == 1 and \
                A[0].atom is None and A[0].p[0] == 'n' and \
                A[0].p[1] in vg.CONST and -len(lit.p[2]) <= \
                vg.CONST[A[0].p[1]] < len(lit.p[2]):
            l = list(lit.p[2])
            ret = l.pop(int(vg.CONST[A[0].p[1]]))
            new = leaf('t', lit.p[1], tuple(l))
        elif name == 'update' and len(A) <= 1:
            new = dict_merge(c, A[0]) if A else c
            for k, v in kw.items():
                new = store_val(new, (('k', k),), self.rv(v, st))
        if new is None:
            new = num(atom_fp('mut:' + name, dd_fp(c), *[
                dd_fp(a) for a in A]))
            ret = num(atom_fp('ret:' + name, dd_fp(c), *[
                dd_fp(a) for a in A]))
        self.event('.' + name, num(self.ident(recv, st)), args, kw, st, e)
        self.store(recv, (FULL,) if recv.p[2] else (), new, st, e)
        return ret


def positional(fn, skip, args, kw):
    """arguments given by name in the place they have"""
    a = fn.node.args
    ps = [x.arg for x in a.posonlyargs + a.args][skip:]
    args, kw = list(args), dict(kw)
    while len(args) < len(ps) and ps[len(args)] in kw:
        args.append(kw.pop(ps[len(args)]))
    return args, kw


def sort_items(its):
    if all(x.atom is None and x.p[0] == 's' for x in its):
        return sorted(its, key=lambda x: x.p[1])
    if all(x.atom is None and x.p[0] == 'n' and x.p[1] in vg.CONST
           for x in its):
        return sorted(its, key=lambda x: vg.CONST[x.p[1]])
    return None


def sort_few(its):
    """two or three numbers in order"""
    if not 1 < len(its) < 4 or not all(
            l.p[0] == 'n' for x in its for l in vg.leaves(x)):
        return None
    a, b = vg.vmin(its[0], its[1]), vg.vmax(its[0], its[1])
    if len(its) == 2:
        return [a, b]
    c = its[2]
    return [vg.vmin(a, c), vg.vmax(a, vg.vmin(b, c)), vg.vmax(b, c)]


def comp_val(kind, fp, v, c):
    f = atom_fp('comp', fp, v, c.h)
    COMPIF[f] = c
    if kind == 'set':
        f = atom_fp('setof', f)
    return num(f)


def len_fp(f):
    n = vg.NODE.get(f)
    if n is not None and n[0] == 'comp' and COMPIF.get(f) is TRUE and len(
            n[1][1]) == 1:
        rg = RANGES.get(n[1][0])
        if rg is not None and rg[0] is VZERO and rg[2] is vg.VONE and \
                rg[1].atom is None and rg[1].p[0] == 'n' and \
                vg.NODE.get(rg[1].p[1], ('',))[0] == 'len':
            return rg[1].p[1]
    return atom_fp('len', f, scalar=True)


def comp_item(f, key):
    """[v(t) for t in I][i] is v(i)"""
    dom, vs = vg.NODE[f][1][:2]
    if key[0] != 'v' or len(vs) != 1 or COMPIF.get(f) is not TRUE:
        return None
    n = vg.NODE.get(key[1])
    if n is None or n[0] != 'iota' or n[1][1] != dom:
        return None
    if rests_iota(f) - {key[1]}:
        return None
    return vs[0]


def rests_iota(f):
    """loop indices over the domain of a comprehension in its elements"""
    n = vg.NODE[f]
    dom = n[1][0]
    own = set()
    st, seen = list(vg._flat([n[1][1]])) + vg.dd_fps(COMPIF[f]), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        m = vg.NODE.get(x) or vg.NODE.get((vg.P - x) % vg.P)
        if m is None:
            continue
        if m[0] == 'iota' and m[1][1] == dom:
            own.add(x if x in vg.NODE else (vg.P - x) % vg.P)
        st.extend(vg._flat(m[1]))
        if x in vg.DDEXP:
            st.extend(vg.dd_fps(vg.DDEXP[x]))
        if x in COMPIF:
            st.extend(vg.dd_fps(COMPIF[x]))
    return own


def rests_on(fps, on):
    """is one of `on` part of the values?"""
    st, seen = list(fps), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in on or (vg.P - x) % vg.P in on:
            return True
        n = vg.NODE.get(x)
        if n is None:
            n = vg.NODE.get((vg.P - x) % vg.P)
        if n:
            st.extend(vg._flat(n[1]))
        if x in vg.DDEXP:
            st.extend(vg.dd_fps(vg.DDEXP[x]))
        if x in COMPIF:
            st.extend(vg.dd_fps(COMPIF[x]))
    return False


COMPIF = {}
CONDKEY = {}
RANGES = {}
LOOPS = {}
LOOPKIND = {}
ANYOF = {}


def has_ref(v):
    for l in vg.leaves(v):
        p = l.p
        if p[0] == 'r':
            return True
        if p[0] == 't' and any(has_ref(x) for x in p[2]):
            return True
        if p[0] == 'arr' and any(has_ref(x) for _, x in p[2]):
            return True
    return False


def mentions(v, oid):
    """a value refers to the object"""
    for l in vg.leaves(v):
        p = l.p
        if p[0] == 'r':
            if p[1] == oid:
                return True
        elif p[0] == 't' and any(mentions(x, oid) for x in p[2]):
            return True
        elif p[0] == 'arr' and any(mentions(x, oid) for _, x in p[2]):
            return True
    return False


def unsel(v, iota, phis):
    """rewrite f(a[i], b[i], ..) into the element-wise f(a, b, ..); None when
    the value uses the index in any other way"""
    memo = {}
    key = ('v', iota)

    def fp(f):
        if f in memo:
            return memo[f]
        r = _fp(f)
        memo[f] = r
        return r

    def _fp(f):
        if f in vg.CONST:
            return f
        if f == iota or f in phis:
            return None
        n = vg.NODE.get(f)
        if n is None:
            m = vg.NODE.get((vg.P - f) % vg.P)
            if m is not None:
                r = fp((vg.P - f) % vg.P)
                return None if r is None else vg.n_neg(r)
            return f
        op, args = n
        if op == 'sel' and args[1] == key:
            # base must not depend on iota
            return args[0] if not depends(args[0], iota, phis) else None
        if op in ('+', '-', '*', '/', '**'):
            a, b = fp(args[0]), fp(args[1])
            if a is None or b is None:
                return None
            return {'+': vg.n_add, '-': vg.n_sub, '*': vg.n_mul,
                    '/': vg.n_div, '**': vg.n_pow}[op](a, b)
        if op == 'pow':
            a = fp(args[0])
            return None if a is None else vg.n_pow(
                a, vg.cfp(vg.Fraction(args[1])))
        if op in ELEMWISE:
            out = []
            for a in args:
                if isinstance(a, int):
                    a = fp(a)
                    if a is None:
                        return None
                out.append(a)
            return atom_fp(op, *out)
        if op == 'dd' and f in vg.DDEXP:
            r = dd(vg.DDEXP[f])
            return None if r is None else dd_fp(r)
        return None if depends(f, iota, phis) else f

    def dd(v):
        if v.atom is None:
            if v.p[0] == 'n':
                r = fp(v.p[1])
                return None if r is None else num(r)
            if v.p[0] in ('b', 's', 'none'):
                return v
            return None
        kids = [dd(k) for k in v.kids]
        if any(k is None for k in kids):
            return None
        if v.atom[0] == 's':
            f = fp(v.atom[1])
            if f is None:
                return None
            atom, o = vg.sgn_atom(f, vg.ZERO)
            if atom is None:
                return kids[o + 1]
            return vg._sel3(atom, o, *kids)
        if depends(v.atom[1], iota, phis):
            return None
        return vg.case(v.atom, kids)
    return dd(v)


def depends(f, iota, phis):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == iota or x in phis:
            return True
        n = vg.NODE.get(x)
        if n is None:
            m = (vg.P - x) % vg.P
            if m in vg.NODE:
                st.append(m)
            continue
        st.extend(vg._flat(n[1]))
        if x in vg.DDEXP:
            st.extend(vg.dd_fps(vg.DDEXP[x]))
    return False
