"""Canonical value graph.

Every value computed by the analysed source is represented by a canonical
decision diagram over *gating conditions* (comparisons / opaque booleans) whose
leaves are algebraic values.  Algebraic values are value-numbered by an
algebraic hash: a homomorphism of the field of rational functions over the
opaque atoms into GF(2^61-1), so that two expressions get the same number iff
(up to a hash collision of probability < 2^-50) they are equal as rational
functions - re-association, distribution, common subexpressions, temporaries
and helper extraction are invisible.  No part of the analysed program is run.
"""
import hashlib
from fractions import Fraction

P = (1 << 61) - 1


def H(*parts):
    d = hashlib.blake2b(repr(parts).encode('utf-8', 'replace'),
                        digest_size=8).digest()
    v = int.from_bytes(d, 'big') % P
    return v or 1


class Blowup(Exception):
    pass


# --------------------------------------------------------------------- terms
NODE = {}      # fp -> (op, args) representation used for printing / rewriting
CONST = {}     # fp -> Fraction
SCALAR = set()  # fps known to be scalars (indexing does not apply)
TAINT = set()  # fps of constructs the analysis does not understand
DDEXP = {}     # fp of a wrapped diagram -> Val


def cfp(fr):
    f = (fr.numerator % P) * pow(fr.denominator % P, P - 2, P) % P
    CONST[f] = fr
    return f


def const_num(v):
    if isinstance(v, bool):
        return cfp(Fraction(int(v)))
    if isinstance(v, int):
        return cfp(Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return atom_fp('fconst', repr(v))
        return cfp(Fraction(repr(v)))
    raise TypeError(v)


ZERO = cfp(Fraction(0))
ONE = cfp(Fraction(1))


def atom_fp(kind, *args, scalar=False):
    """opaque atom; args are canonical (ints=fps, strings, tuples)"""
    f = H(kind, *args)
    if f not in NODE:
        NODE[f] = (kind, args)
    if scalar:
        SCALAR.add(f)
    return f


def is_scalar(f):
    return f in SCALAR or f in CONST


def _rec(f, op, args):
    if f in CONST:
        return f
    if f not in NODE:
        NODE[f] = (op, args)
    if all(is_scalar(a) for a in args):
        SCALAR.add(f)
    return f


def n_add(a, b):
    if a in CONST and b in CONST:
        return cfp(CONST[a] + CONST[b])
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    return _rec((a + b) % P, '+', (a, b))


def n_sub(a, b):
    if a in CONST and b in CONST:
        return cfp(CONST[a] - CONST[b])
    if b == ZERO:
        return a
    return _rec((a - b) % P, '-', (a, b))


def n_neg(a):
    return n_sub(ZERO, a)


def n_mul(a, b):
    if a in CONST and b in CONST:
        return cfp(CONST[a] * CONST[b])
    if a == ONE:
        return b
    if b == ONE:
        return a
    return _rec(a * b % P, '*', (a, b))


def n_div(a, b):
    if a in CONST and b in CONST and CONST[b] != 0:
        return cfp(CONST[a] / CONST[b])
    if b == ONE:
        return a
    if b == 0:
        return atom_fp('div0', a)
    return _rec(a * pow(b, P - 2, P) % P, '/', (a, b))


def n_pow(a, b):
    if b in CONST:
        e = CONST[b]
        if e == 1:
            return a
        if a in CONST and e.denominator == 1 and abs(e) < 64 and (
                CONST[a] != 0 or e > 0):
            return cfp(CONST[a] ** int(e))
        if e.denominator == 1 and abs(e) <= 64:
            n = int(e)
            if n >= 0:
                return _rec(pow(a, n, P), '**', (a, b))
            return _rec(pow(pow(a, -n, P), P - 2, P), '**', (a, b))
        # non-integer exponent: integer part times fractional root
        k = e.numerator // e.denominator
        frac = e - k
        root = atom_fp('pow', a, str(frac))
        if is_scalar(a):
            SCALAR.add(root)
        if k == 0:
            return root
        if 0 < abs(k) <= 64:
            return n_mul(root, n_pow(a, cfp(Fraction(k))))
        return atom_fp('pow', a, str(e))
    f = atom_fp('powv', a, b)
    if is_scalar(a) and is_scalar(b):
        SCALAR.add(f)
    return f


def tainted(f, seen=None):
    """does the value depend on a construct the analysis cannot interpret?"""
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in TAINT:
            return True
        n = NODE.get(x)
        if n:
            for a in _flat(n[1]):
                st.append(a)
        if x in DDEXP:
            for y in dd_fps(DDEXP[x]):
                st.append(y)
    return False


def _flat(args):
    for a in args:
        if isinstance(a, bool) or a is None or isinstance(a, str):
            continue
        if isinstance(a, int):
            yield a
        elif isinstance(a, (tuple, list)):
            for x in _flat(a):
                yield x


# ------------------------------------------------------------------ diagrams
class Val:
    __slots__ = ('id', 'atom', 'kids', 'p', 'h')

    def __repr__(self):
        return show(self)


_uniq = {}
_ids = [0]


_weights = {}


def weights(atom, n):
    w = _weights.get(atom)
    if w is None:
        w = [H('w', atom, i) % P for i in range(n - 1)]
        w.append((1 - sum(w)) % P)
        _weights[atom] = w
    return w


def _mk(key, atom, kids, p):
    v = _uniq.get(key)
    if v is None:
        v = Val()
        _ids[0] += 1
        v.id = _ids[0]
        v.atom = atom
        v.kids = kids
        v.p = p
        if atom is None:
            v.h = _payload_hash(p)
        else:
            # independent of the order of the atoms: the expected value under
            # random weights of the outcomes of each atom
            w = weights(atom, len(kids))
            v.h = sum(x * k.h for x, k in zip(w, kids)) % P
        _uniq[key] = v
    return v


def _payload_hash(p):
    k = p[0]
    if k == 't':
        return H('t', tuple(v.h for v in p[2]))
    if k == 'arr':
        return H('arr', p[1], tuple((kk, v.h) for kk, v in p[2]))
    if k == 'sl':
        return H('sl', tuple(v.h if v is not None else None for v in p[1:]))
    if k == 'o':
        return H('o', p[1])
    return H(*p)


def leaf(*p):
    if p[0] == 't':
        key = ('t', p[1], tuple(v.id for v in p[2]))
    elif p[0] == 'arr':
        key = ('arr', p[1], tuple((k, v.id) for k, v in p[2]))
    elif p[0] == 'sl':
        key = ('sl',) + tuple(None if v is None else v.id for v in p[1:])
    elif p[0] == 'o':
        key = ('o', p[1])
    else:
        key = p
    return _mk(key, None, None, p)


def num(fp):
    return leaf('n', fp)


def cnum(v):
    return leaf('n', const_num(v))


TRUE = leaf('b', True)
FALSE = leaf('b', False)
NONE = leaf('none')
VZERO = num(ZERO)
VONE = num(ONE)


def boolv(b):
    return TRUE if b else FALSE


def node(atom, kids):
    """kids must only contain atoms greater than `atom`"""
    if atom[0] == 's' and kids[1] is not kids[0]:
        # where the difference is zero the values it separates coincide: one
        # of them stands for both, so that < and <= select the same value
        z = _at_zero(kids[1], kids[0], kids[2], atom[1])
        if z is not kids[1]:
            kids = (kids[0], z, kids[2])
    k0 = kids[0]
    for k in kids[1:]:
        if k is not k0:
            break
    else:
        return k0
    rank(atom)
    return _mk((atom,) + tuple(k.id for k in kids), atom, tuple(kids), None)


_zmemo = {}


def _at_zero(z, k0, k2, d):
    if z is k0:
        return z
    if z.atom is None:
        if z.p[0] != 'n':
            return z
        if k0.atom is None and k2.atom is None:
            for k in (k0, k2):
                if k.p[0] == 'n' and (z.p[1] - k.p[1]) % P in (d, P - d):
                    return k
            return z
    key = (z.id, k0.id, k2.id, d)
    r = _zmemo.get(key)
    if r is None:
        top = min((v.atom for v in (z, k0, k2) if v.atom is not None),
                  key=rank)
        r = node(top, [_at_zero(cof(z, top, i), cof(k0, top, i),
                                cof(k2, top, i), d)
                       for i in range(arity(top))])
        _zmemo[key] = r
    return r


def cof(v, atom, i):
    if v.atom == atom:
        return v.kids[i]
    return v


def arity(atom):
    return 3 if atom[0] == 's' else 2


def implied(c):
    """atom values that follow from condition c"""
    out = {}
    while c.atom is not None:
        live = [i for i, k in enumerate(c.kids) if k is not FALSE]
        if len(live) != 1:
            break
        out[c.atom] = live[0]
        c = c.kids[live[0]]
    return out


_gmemo = {}


def given(v, asg):
    """the diagram where the given atoms have the given values"""
    for at, i in asg.items():
        v = _given1(v, at, i)
    return v


def _given1(v, at, i):
    if v.atom is None or rank(v.atom) > rank(at):
        return v
    if v.atom == at:
        return v.kids[i]
    key = (v.id, at, i)
    r = _gmemo.get(key)
    if r is None:
        r = node(v.atom, [_given1(k, at, i) for k in v.kids])
        _gmemo[key] = r
    return r


RANK = {}       # order of the atoms in diagrams: as first met


def rank(at):
    r = RANK.get(at)
    if r is None:
        r = RANK[at] = len(RANK)
    return r


CASES = {}      # atoms fixed by the case split under analysis
_casememo = {}
_cc = [0]       # work done by the outermost running apply()
_depth = [0]
CASE_LIMIT = 60000


def case(atom, kids):
    """canonical diagram selecting kids[i] by atom"""
    if CASES and atom in CASES:
        return kids[CASES[atom]]
    for k in kids[1:]:
        if k is not kids[0]:
            break
    else:
        return kids[0]
    top = atom
    rt = rank(atom)
    for k in kids:
        if k.atom is not None and RANK[k.atom] < rt:
            top = k.atom
            rt = RANK[top]
    if top == atom:
        return node(atom, [cof(k, atom, i) for i, k in enumerate(kids)])
    key = (atom,) + tuple(k.id for k in kids)
    r = _casememo.get(key)
    if r is None:
        if _depth[0]:
            _cc[0] += 1
            if _cc[0] > CASE_LIMIT:
                raise Blowup()
        r = node(top, [case(atom, [cof(k, top, j) for k in kids])
                       for j in range(arity(top))])
        _casememo[key] = r
    return r


LIMIT = 2500


def apply(f, *vs):
    """apply leaf function f(*leaves)->Val pointwise over the diagrams"""
    for v in vs:
        if v.atom is not None:
            break
    else:
        return f(*vs)
    memo = {}
    cnt = [0]
    if not _depth[0]:
        _cc[0] = 0

    def rec(vs):
        key = tuple(v.id for v in vs)
        r = memo.get(key)
        if r is not None:
            return r
        top = None
        for v in vs:
            if v.atom is not None and (top is None or RANK[v.atom] < rt):
                top = v.atom
                rt = RANK[top]
        if top is None:
            r = f(*vs)
        else:
            cnt[0] += 1
            if cnt[0] > LIMIT:
                raise Blowup()
            kids = [rec(tuple(cof(v, top, i) for v in vs))
                    for i in range(arity(top))]
            kids = prune_kids(top, kids)
            r = case(top, kids)
        memo[key] = r
        return r
    _depth[0] += 1
    try:
        return rec(tuple(vs))
    finally:
        _depth[0] -= 1


def prune_kids(top, kids):
    return kids


def set_cases(c):
    CASES.clear()
    CASES.update(c)
    _casememo.clear()


def dd_size(v):
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            st.extend(x.kids)
    return len(seen)


def leaves(v):
    seen = set()
    st = [v]
    out = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            st.extend(reversed(x.kids))
        else:
            out.append(x)
    return out


def atoms_of(v):
    seen = set()
    st = [v]
    out = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is not None:
            out.add(x.atom)
            st.extend(x.kids)
    return out


def dd_fps(v):
    """all fps occurring in a diagram (atoms and leaves)"""
    out = []
    for a in atoms_of(v):
        out.append(a[1])
    for l in leaves(v):
        out.extend(payload_fps(l.p))
    return out


def payload_fps(p):
    if p[0] == 'n':
        return [p[1]]
    if p[0] == 't':
        return [x for v in p[2] for x in dd_fps(v)]
    if p[0] == 'arr':
        return [p[1]] + [x for _, v in p[2] for x in dd_fps(v)] + \
            list(_flat([k for k, _ in p[2]]))
    if p[0] == 'sl':
        return [x for v in p[1:] if v is not None for x in dd_fps(v)]
    return []


def to_fp(l):
    """value number of a leaf (no refs)"""
    p = l.p
    k = p[0]
    if k == 'n':
        return p[1]
    if k == 'b':
        return ONE if p[1] else ZERO
    if k == 's':
        f = H('str', p[1])
        NODE.setdefault(f, ('str', (p[1],)))
        SCALAR.add(f)
        return f
    if k == 'none':
        f = H('none')
        NODE.setdefault(f, ('None', ()))
        return f
    if k == 't':
        args = []
        for v in p[2]:
            args.append(dd_fp(v))
        return atom_fp('tup', *args)
    f = l.h
    LEAFOF[f] = l
    if f not in NODE:
        if k == 'arr':
            NODE[f] = ('arr', (p[1],) + tuple(
                x for kk, v in p[2] for x in (kk, dd_fp(v))))
        elif k == 'r':
            NODE[f] = ('ref', (repr(p[1]),))
        else:
            NODE[f] = (k, tuple(str(x) for x in p[1:]))
    return f


LEAFOF = {}     # fp of a compound leaf -> the leaf


def unfp(f):
    """the value a number stands for"""
    return DDEXP.get(f) or LEAFOF.get(f) or num(f)


def wrap(v):
    """collapse a diagram into one opaque (but canonical) value"""
    if v.atom is None:
        return v
    f = H('dd', v.h)
    if f not in NODE:
        NODE[f] = ('dd', tuple(dd_fps(v)))
        DDEXP[f] = v
    return num(f)


def dd_fp(v):
    return to_fp(wrap(v))


BLOWN = set()   # fps that stand for a diagram given up on


def wrap_blown(v):
    if v.atom is None:
        return v
    r = wrap(v)
    BLOWN.add(r.p[1])
    return r


def give_up(v):
    """an opaque stand-in of the same kind"""
    if v.atom is None:
        return v
    if is_bool(v):
        return truth_leaf_wrapped(v)
    return wrap_blown(v)


def is_bool(v):
    return all(l.p[0] == 'b' for l in leaves(v))


def safe_apply(f, *vs):
    try:
        return apply(f, *vs)
    except Blowup:
        vs = list(vs)
        order = sorted(range(len(vs)), key=lambda i: -dd_size(vs[i]))
        for i in order:
            vs[i] = give_up(vs[i])
            try:
                return apply(f, *vs)
            except Blowup:
                continue
        return apply(f, *vs)


def as_num(l):
    return to_fp(l)


def lift2(fn):
    def g(a, b):
        return num(fn(as_num(a), as_num(b)))
    return lambda a, b: safe_apply(g, a, b)


add = lift2(n_add)
sub = lift2(n_sub)
mul = lift2(n_mul)
div = lift2(n_div)
power = lift2(n_pow)


def neg(a):
    return safe_apply(lambda x: num(n_neg(as_num(x))), a)


# ---------------------------------------------------------------- conditions
SGN = {}    # canonical fp of difference -> (x_fp, Fraction k, orient) or None
STREQ = {}  # bool atom fp -> (x_fp, string)


def _canon_sign(d):
    m = P - d
    return (d, 1) if d <= m else (m, -1)


# ranges of atoms known a priori: fp -> 'nonneg' | 'pos' | 'nz'
FACT_SIGN = {}
SQUARES = set()


def known_signs(fp):
    """set of possible signs of a value from simple structural facts"""
    if fp in CONST:
        c = CONST[fp]
        return {(c > 0) - (c < 0)}
    r = FACT_SIGN.get(fp)
    if r is not None:
        return r
    return {-1, 0, 1}


# names of quantities that are integers by construction (counts, indices);
# user-supplied ones are rejected by type guards otherwise
INT_NAMES = {'num_gp', 'heated_cells', 'stepnum', 'num_steps', 'port_num',
             'valve_location', '_total_stepnum'}
INTEGRAL = set()


def integral(f):
    INTEGRAL.add(f)


def const_part(f, d=6):
    """constant summand of a sum, by structure"""
    if f in CONST:
        return CONST[f]
    n = NODE.get(f)
    if n is None or d == 0 or n[0] not in ('+', '-'):
        return Fraction(0)
    x = const_part(n[1][0], d - 1)
    y = const_part(n[1][1], d - 1)
    return x + y if n[0] == '+' else x - y


def is_int(f, d=8):
    if f in CONST:
        return CONST[f].denominator == 1
    n = NODE.get(f)
    if n is None or d == 0:
        return False
    if n[0] in ('+', '-', '*'):
        return all(is_int(x, d - 1) for x in n[1])
    if n[0] == 'attr':
        return n[1][1] in INT_NAMES
    if n[0] == 'sel':
        k = n[1][1]
        return k in (('k', x) for x in INT_NAMES) or \
            isinstance(n[1][0], int) and is_int(n[1][0], d - 1)
    return n[0] in ('len', 'size')


def sgn_atom(a, b):
    """(atom, orient) for sign(a-b), or a constant sign"""
    d = n_sub(a, b)
    if d in CONST:
        c = CONST[d]
        return None, (c > 0) - (c < 0)
    if d == 0:
        return None, 0
    f, o = _canon_sign(d)
    if f not in SGN:
        info = None
        if b in CONST and a not in CONST:
            xf, xo = _canon_sign(a)
            # sign(a-k) ; a = xo*x  => o*sign(xo*x-k) = o*xo*sign(x - xo*k)
            info = (xf, CONST[b] * xo, o * xo)
        elif a in CONST and b not in CONST:
            xf, xo = _canon_sign(b)
            # sign(k-b) = -sign(b-k) = -xo*sign(x - xo*k)
            info = (xf, CONST[a] * xo, -o * xo)
        else:
            c = const_part(d)
            if c:
                # sign(x + c): x against the constant -c
                xf, xo = _canon_sign((d - cfp(c)) % P)
                if is_int(d):
                    integral(xf)
                info = (xf, -c * xo, o * xo)
            else:
                # difference against zero
                if is_int(d):
                    integral(f)
                info = (f, Fraction(0), 1)
        SGN[f] = info
        if f not in NODE:
            NODE[f] = ('-', (a, b)) if o == 1 else ('-', (b, a))
    return ('s', f), o


def _sel3(atom, o, ng, z, ps):
    # counts are never negative: that branch is taken over by the zero case
    if NODE.get(atom[1], ('',))[0] in ('len', 'size'):
        ng, ps = (z, ps) if o == 1 else (ng, z)
    elif NODE.get((P - atom[1]) % P, ('',))[0] in ('len', 'size'):
        ng, ps = (ng, z) if o == 1 else (z, ps)
    if o == 1:
        return case(atom, [ng, z, ps])
    return case(atom, [ps, z, ng])


def cmp_leaf(op, a, b):
    """comparison of two leaves -> boolean diagram"""
    pa, pb = a.p, b.p
    if op in ('==', '!='):
        r = _eq_leaf(a, b)
        return r if op == '==' else not_(r)
    if pa[0] == 't' and pb[0] == 't':
        return boolatom('cmp' + op, to_fp(a), to_fp(b))
    x, y = as_num(a), as_num(b)
    atom, o = sgn_atom(x, y)
    t = {'<': (1, 0, 0), '<=': (1, 1, 0), '>': (0, 0, 1), '>=': (0, 1, 1)}[op]
    if atom is None:
        return boolv(t[o + 1])
    return _sel3(atom, o, *[boolv(q) for q in t])


def _eq_leaf(a, b):
    if a is b:
        return TRUE
    pa, pb = a.p, b.p
    ka, kb = pa[0], pb[0]
    if ka == 's' and kb == 's':
        return boolv(pa[1] == pb[1])
    if 's' in (ka, kb):
        s, o = (pa, b) if ka == 's' else (pb, a)
        if o.p[0] in ('none', 'b', 't') or (
                o.p[0] == 'n' and o.p[1] in CONST):
            return FALSE
        x = to_fp(o)
        f = H('eqs', x, s[1])
        NODE.setdefault(f, ('==', (x, 'str:' + s[1])))
        STREQ[f] = (x, s[1])
        return case(('b', f), [FALSE, TRUE])
    if 'none' in (ka, kb):
        o = b if ka == 'none' else a
        if o.p[0] in ('b', 't', 's', 'arr') or (
                o.p[0] == 'n' and o.p[1] in CONST):
            return FALSE
        return boolatom('isnone', to_fp(o))
    if ka == 't' and kb == 't':
        if len(pa[2]) != len(pb[2]):
            return FALSE
        r = TRUE
        for u, v in zip(pa[2], pb[2]):
            r = and_(r, cmp_('==', u, v))
        return r
    if ka == 'b' and kb == 'b':
        return boolv(pa[1] == pb[1])
    if ka == 'b' or kb == 'b':
        c, o = (pa, b) if ka == 'b' else (pb, a)
        t = truth_leaf(o)
        return t if c[1] else not_(t)
    if ka == 'o' and kb == 'o':
        return boolv(pa[1] == pb[1])
    x, y = to_fp(a), to_fp(b)
    atom, o = sgn_atom(x, y)
    if atom is None:
        return boolv(o == 0)
    return _sel3(atom, o, FALSE, TRUE, FALSE)


def cmp_(op, a, b):
    return safe_apply(lambda x, y: cmp_leaf(op, x, y), a, b)


def boolatom(kind, *args):
    f = H('bool', kind, *args)
    NODE.setdefault(f, (kind, args))
    SCALAR.add(f)
    return case(('b', f), [FALSE, TRUE])


def truth_leaf(l):
    p = l.p
    k = p[0]
    if k == 'b':
        return l
    if k == 'none':
        return FALSE
    if k == 's':
        return boolv(bool(p[1]))
    if k == 't':
        return boolv(len(p[2]) > 0)
    if k == 'n':
        if p[1] in CONST:
            return boolv(CONST[p[1]] != 0)
        if p[1] in DDEXP:
            return truth(DDEXP[p[1]])
        if NODE.get(p[1], ('',))[0] == 'len':
            return not_(cmp_leaf('==', l, num(ZERO)))
        return boolatom('truth', p[1])
    if k == 'o':
        return TRUE
    return boolatom('truth', to_fp(l))


def truth(v):
    try:
        return apply(truth_leaf, v)
    except Blowup:
        return boolatom('truth', dd_fp(wrap_blown(v)))


def not_(a):
    return safe_apply(lambda x: boolv(not x.p[1]), a)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return safe_bool(lambda x, y: boolv(x.p[1] and y.p[1]), a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return safe_bool(lambda x, y: boolv(x.p[1] or y.p[1]), a, b)


def safe_bool(f, *vs):
    try:
        return apply(f, *vs)
    except Blowup:
        vs = [v if v.atom is None else truth_leaf_wrapped(v) for v in vs]
        return apply(f, *vs)


def truth_leaf_wrapped(v):
    f = H('bdd', v.h)
    NODE.setdefault(f, ('bdd', tuple(dd_fps(v))))
    BLOWN.add(f)
    return case(('b', f), [FALSE, TRUE])


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    try:
        return apply(lambda x, y, z: y if x.p[1] else z, c, a, b)
    except Blowup:
        try:
            return apply(lambda x, y, z: y if x.p[1] else z,
                         c, give_up(a), give_up(b))
        except Blowup:
            if is_bool(a) and is_bool(b):
                return apply(lambda x, y, z: y if x.p[1] else z,
                             truth_leaf_wrapped(c), give_up(a), give_up(b))
            f = atom_fp('ite', c.h, dd_fp(a), dd_fp(b))
            BLOWN.add(f)
            return num(f)


def vmin(a, b):
    return ite(cmp_('<', b, a), b, a)


def vmax(a, b):
    return ite(cmp_('>', b, a), b, a)


def vabs(a):
    return ite(cmp_('<', a, VZERO), neg(a), a)


# ------------------------------------------------------------ feasible region
BTYPES = ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'slice',
          'set')


def btype(t):
    """builtin type of an isinstance test; these exclude each other, except
    that every bool is an int"""
    n = NODE.get(t)
    if n is not None and n[0] == 'o' and str(n[1][0]).startswith(
            'ext:builtins.'):
        r = n[1][0][13:]
        return r if r in BTYPES else None
    return None


class Ctx:
    """path context with a small theory: sign atoms of the same term against
    different constants, equality with different strings, and facts."""

    def __init__(self):
        self.asg = dict(CASES)      # atom -> index
        self.iv = {}       # x_fp -> (lo, lo_open, hi, hi_open)
        self.ne = {}       # x_fp -> set of excluded points
        self.streq = {}    # x_fp -> string or set of excluded
        self.types = {}    # x_fp -> ((builtin type, is instance), ...)

    def copy(self):
        c = Ctx()
        c.asg = dict(self.asg)
        c.iv = dict(self.iv)
        c.ne = {k: set(v) for k, v in self.ne.items()}
        c.streq = dict(self.streq)
        c.types = dict(self.types)
        return c

    def possible(self, atom):
        """indices of `atom` consistent with the context"""
        if atom in self.asg:
            return [self.asg[atom]]
        if atom[0] == 's':
            out = []
            ks = FACT_SIGN.get(atom[1], (-1, 0, 1))
            d = self._derived(atom[1])
            for i in range(3):
                if (i - 1) in ks and self._ok_sign(atom, i - 1) and (
                        d is None or (i - 1) in d):
                    out.append(i)
            return out
        t = NODE.get(atom[1])
        if t is not None and t[0] in ('isinst', 'isnone'):
            x, t = (t[1][0], 'NoneType') if t[0] == 'isnone' else (
                t[1][0], btype(t[1][1]))
            for u, i in self.types.get(x, ()) if t else ():
                if i and (u == t or (u, t) == ('bool', 'int')):
                    return [1]
                if i and (u, t) != ('int', 'bool'):
                    return [0]
                if not i and (t, u) == ('bool', 'int'):
                    return [0]
        if atom[1] in STREQ:
            x, s = STREQ[atom[1]]
            cur = self.streq.get(x)
            if isinstance(cur, str):
                return [1 if cur == s else 0]
            if cur is not None and s in cur:
                return [0]
        return [0, 1]

    def _derived(self, f):
        """signs of f = g + h implied by the known signs of g and h"""
        asg = self.asg
        for at, i in asg.items():
            if at[0] != 's':
                continue
            for o in (1, -1):
                r, ro = _canon_sign((f - o * at[1]) % P)
                j = asg.get(('s', r))
                if j is None:
                    continue
                a, b = o * (i - 1), ro * (j - 1)
                if a >= 0 and b >= 0:
                    return (1,) if a or b else (0,)
                if a <= 0 and b <= 0:
                    return (-1,)
        return None

    def _ok_sign(self, atom, s):
        info = SGN.get(atom[1])
        if info is None:
            return True
        x, k, o = info
        sx = s * o
        lo, loo, hi, hio = self.iv.get(x, (None, True, None, True))
        if sx == 0:
            if k in self.ne.get(x, ()):
                return False
            if lo is not None and (k < lo or (k == lo and loo)):
                return False
            if hi is not None and (k > hi or (k == hi and hio)):
                return False
            return True
        if sx > 0:   # x > k
            return hi is None or hi > k
        return lo is None or lo < k

    def assume(self, atom, i):
        c = self.copy()
        c.asg[atom] = i
        if atom[0] == 's':
            info = SGN.get(atom[1])
            if info is not None:
                x, k, o = info
                sx = (i - 1) * o
                lo, loo, hi, hio = c.iv.get(x, (None, True, None, True))
                if sx == 0:
                    lo, loo, hi, hio = k, False, k, False
                elif sx > 0:
                    if lo is None or k >= lo:
                        lo, loo = k, True
                        if x in INTEGRAL:
                            lo, loo = Fraction(k.__floor__() + 1), False
                else:
                    if hi is None or k <= hi:
                        hi, hio = k, True
                        if x in INTEGRAL:
                            hi, hio = Fraction(k.__ceil__() - 1), False
                c.iv[x] = (lo, loo, hi, hio)
        elif NODE.get(atom[1], ('',))[0] in ('isinst', 'isnone'):
            t = NODE[atom[1]]
            x, t = (t[1][0], 'NoneType') if t[0] == 'isnone' else (
                t[1][0], btype(t[1][1]))
            if t:
                c.types[x] = c.types.get(x, ()) + ((t, i),)
        elif atom[1] in STREQ:
            x, s = STREQ[atom[1]]
            if i == 1:
                c.streq[x] = s
            else:
                cur = c.streq.get(x)
                if not isinstance(cur, str):
                    c.streq[x] = (cur or frozenset()) | {s}
        return c


def restrict(v, ctx=None):
    """prune infeasible branches"""
    ctx = ctx or Ctx()
    cnt = [0]

    def rec(v, ctx):
        cnt[0] += 1
        if cnt[0] > 40000:
            raise Blowup()
        if v.atom is None:
            return v
        ps = ctx.possible(v.atom)
        if not ps:
            return None
        kids = {}
        for i in ps:
            k = rec(v.kids[i], ctx.assume(v.atom, i))
            if k is not None:
                kids[i] = k
        if not kids:
            return None
        fill = next(iter(kids.values()))
        if all(k is fill for k in kids.values()):
            return fill
        ks = [kids.get(i, fill) for i in range(arity(v.atom))]
        return case(v.atom, ks)
    return rec(v, ctx)


class Mismatch:
    def __init__(self, path, a, b):
        self.path = path
        self.a = a
        self.b = b

    def text(self):
        q = self.path
        w = ' and '.join(show_atom(at, i) for at, i in (
            q if len(q) < 10 else q[:3] + q[-6:]))
        if len(q) > 9:
            w = w.replace(show_atom(*q[-6]), '.. ' + show_atom(*q[-6]), 1)
        s = 'code: {}   required: {}'.format(show(self.a, 5), show(self.b, 5))
        return (('when ' + w + ': ') if w else '') + s


def compare(a, b, assume=TRUE, eq=None, limit=200000):
    """None if the diagrams agree on the feasible region where `assume` holds,
    otherwise a Mismatch"""
    eq = eq or (lambda x, y: x is y or leaf_eq(x, y))
    cnt = [0]

    def rec(g, a, b, ctx, path):
        if g is FALSE:
            return None
        if a is b:
            return None
        cnt[0] += 1
        if cnt[0] > limit:
            raise Blowup()
        tops = [x.atom for x in (g, a, b) if x.atom is not None]
        if not tops:
            if eq(a, b) or _eq_under(a, b, path) or _eq_given(a, b, ctx):
                return None
            pairs = _components(a, b)
            if pairs is None:
                return Mismatch(path, a, b)
            for u, v in pairs:
                r = rec(TRUE, u, v, ctx, path)
                if r is not None:
                    return r
            return None
        top = min(tops)
        ps = ctx.possible(top)
        for i in ps:
            r = rec(cof(g, top, i), cof(a, top, i), cof(b, top, i),
                    ctx.assume(top, i) if len(ps) > 1 or top not in ctx.asg
                    else ctx, path + [(top, i)])
            if r is not None:
                return r
        return None
    return rec(assume, a, b, Ctx(), [])


N_SEL = [None]       # selection on numbers, installed by interp
DISJ = [None]


def same(a, b, assume=TRUE):
    if a is b or a.h == b.h:
        return True
    try:
        return compare(a, b, assume, limit=20000) is None
    except Blowup:
        return False


def _components(a, b):
    """component values to compare for two compound leaves, or None"""
    ka, kb = a.p[0], b.p[0]
    if ka == 't' and kb == 't':
        if len(a.p[2]) != len(b.p[2]):
            return None
        return list(zip(a.p[2], b.p[2]))
    if ka == 'sl' and kb == 'sl':
        return [(x or NONE, y or NONE) for x, y in zip(a.p[1:], b.p[1:])]
    if ka == 'n' and kb == 'n':
        return _parts(a.p[1], b.p[1])
    if 'arr' not in (ka, kb) or ka not in ('arr', 'n') or \
            kb not in ('arr', 'n'):
        return None
    ba, sa = (a.p[1], a.p[2]) if ka == 'arr' else (a.p[1], ())
    bb, sb = (b.p[1], b.p[2]) if kb == 'arr' else (b.p[1], ())
    if ba != bb:
        return None
    if [k for k, _ in sa] == [k for k, _ in sb]:
        return [(x, y) for (_, x), (_, y) in zip(sa, sb)]
    da, db = dict(sa), dict(sb)
    if len(da) != len(sa) or len(db) != len(sb):
        return None
    keys = list(da) + [k for k in db if k not in da]
    if any(k[0] == 'k' for k in keys) or not all(
            DISJ[0](x, y) for i, x in enumerate(keys) for y in keys[i + 1:]):
        return None
    out = []
    for k in keys:
        base = num(N_SEL[0](ba, k))
        out.append((da.get(k, base), db.get(k, base)))
    return out


def _terms(f, op, inv, pos, out):
    n = NODE.get(f)
    if n is not None and n[0] in (op, inv):
        _terms(n[1][0], op, inv, pos, out)
        _terms(n[1][1], op, inv, pos == (n[0] == op), out)
    else:
        out.append((pos, f))


def _parts(a, b):
    """the differing operands of two numbers built the same way"""
    m, n = NODE.get(a), NODE.get(b)
    if m is None or n is None:
        return None
    for op, inv in (('+', '-'), ('*', '/')):
        if m[0] in (op, inv) or n[0] in (op, inv):
            x, y = [], []
            _terms(a, op, inv, True, x)
            _terms(b, op, inv, True, y)
            for t in list(x):
                if t in y:
                    x.remove(t)
                    y.remove(t)
            if len(x) != len(y) or not x or len(x) > 6:
                return None

            def order(t):
                return t[0], str(NODE.get(t[1], ('',))[0]), t[1] in DDEXP
            x.sort(key=order)
            y.sort(key=order)
            if [t[0] for t in x] != [t[0] for t in y] or (
                    len(x) == 1 and x[0][1] == a):
                return None
            return [(unfp(t[1]), unfp(u[1])) for t, u in zip(x, y)]
    if m[0] != n[0] or len(m[1]) != len(n[1]):
        return None
    if m[0] == 'sel':
        out = [] if m[1][0] == n[1][0] else [(unfp(m[1][0]), unfp(n[1][0]))]
        if m[1][1] != n[1][1]:
            k = _key_parts(m[1][1], n[1][1])
            if k is None:
                return None
            out += k
        return out or None
    if not (m[0].startswith('call:') or m[0].startswith('np.')):
        return None
    out = []
    for x, y in zip(m[1], n[1]):
        if x == y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and \
                len(x) == len(y) == 2 and x[0] == y[0]:
            x, y = x[1], y[1]
        if not isinstance(x, int) or not isinstance(y, int):
            return None
        out.append((unfp(x), unfp(y)))
    return out or None


def _key_parts(x, y):
    if x == y:
        return []
    if not isinstance(x, tuple) or not isinstance(y, tuple) or \
            len(x) != len(y) or x[0] != y[0]:
        return None
    if x[0] == 'v':
        return [(unfp(x[1]), unfp(y[1]))]
    if x[0] not in ('sl', 'tu'):
        return None
    out = []
    for p, q in zip(x[1:], y[1:]):
        k = _key_parts(p, q)
        if k is None:
            return None
        out += k
    return out


def _eq_under(a, b, path):
    """equal given the equalities (difference == 0) on the path"""
    zs = [at[1] for at, i in path if at[0] == 's' and i == 1]
    if not zs or a.p[0] != 'n' or b.p[0] != 'n':
        return False
    d = _canon_sign((a.p[1] - b.p[1]) % P)[0]
    return d in zs


TAGS = {}       # hash naming a loop variable -> what it is made of
_hasdd = {}


def _parts_of(f):
    if f in DDEXP:
        return dd_fps(DDEXP[f])
    if f in LEAFOF:
        return payload_fps(LEAFOF[f].p)
    if f in TAGS:
        out = []
        for x in TAGS[f]:
            out += dd_fps(x) if isinstance(x, Val) else [x]
        return out
    n = NODE.get(f)
    return list(_flat(n[1])) if n is not None else []


def has_dd(fps):
    """does a conditional value occur inside of an operation"""
    st = [(f, False) for f in fps]
    seen = set()
    while st:
        f, done = st.pop()
        if not isinstance(f, int) or isinstance(f, bool):
            continue
        if done:
            _hasdd[f] = f in DDEXP or NODE.get(f, ('',))[0] == 'int' or any(
                _hasdd.get(x) for x in _parts_of(f)
                if isinstance(x, int))
            continue
        if f in _hasdd or f in seen or f in CONST:
            continue
        seen.add(f)
        st.append((f, True))
        st.extend((x, False) for x in _parts_of(f) if isinstance(x, int))
    return any(_hasdd.get(f) for f in fps if isinstance(f, int))


class Given:
    """values under the conditions of a path, also inside of operations"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def val(self, v):
        while v.atom is not None:
            ps = self.ctx.possible(v.atom)
            if len(ps) != 1:
                break
            v = v.kids[ps[0]]
        return v

    def vh(self, v):
        """hash of a value"""
        v = self.val(v)
        k = ('v', v.id)
        if k in self.memo:
            return self.memo[k]
        if len(self.memo) > 20000:
            raise Blowup()
        if v.atom is None:
            p = v.p
            if p[0] == 'n':
                r = H('n', self.fp(p[1]))
            elif p[0] == 't':
                r = H('t', tuple(self.vh(x) for x in p[2]))
            elif p[0] == 'arr':
                r = H('arr', self.fp(p[1]), tuple(
                    (self.key(kk), self.vh(x)) for kk, x in p[2]))
            elif p[0] == 'sl':
                r = H('sl', tuple(self.vh(x) if x is not None else None
                                  for x in p[1:]))
            else:
                r = v.h
        else:
            at = (v.atom[0], self.fp(v.atom[1])) + tuple(v.atom[2:])
            if at != v.atom and at[0] == 's':
                at = v.atom[:1] + (_canon_sign(at[1])[0],) + v.atom[2:]
            w = weights(at, len(v.kids))
            r = sum(x * self.vh(k) for x, k in zip(w, v.kids)) % P
        self.memo[k] = r
        return r

    def leaf_fp(self, l):
        if l.p[0] == 'n':
            return self.fp(l.p[1])
        if l.p[0] == 't':
            return H('tup', *[self.val_fp(x) for x in l.p[2]])
        if l.p[0] in ('arr', 'sl'):
            return self.vh(l)
        return to_fp(l)

    def val_fp(self, v):
        v = self.val(v)
        return self.leaf_fp(v) if v.atom is None else H('dd', self.vh(v))

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, int) and not isinstance(k, bool):
            return self.fp(k)
        return k

    def fp(self, f):
        if f in CONST or not has_dd([f]):
            return f
        if f in self.memo:
            return self.memo[f]
        if len(self.memo) > 20000:
            raise Blowup()
        self.memo[f] = f
        if f in DDEXP:
            r = self.val_fp(DDEXP[f])
        elif f in LEAFOF:
            r = self.leaf_fp(LEAFOF[f])
        elif f in TAGS:
            r = H('tag', *[self.vh(x) if isinstance(x, Val) else self.fp(x)
                           for x in TAGS[f]])
        else:
            op, args = NODE[f]
            new = self.key(args)
            if op == 'int' and len(args) == 1 and any(
                    i and u in ('int', 'bool')
                    for u, i in self.ctx.types.get(args[0], ())):
                # an integer already
                self.memo[f] = new[0]
                return new[0]
            if op in NUMOPS and len(args) == 2 and \
                    NUMOPS[op](*args) == f:
                r = NUMOPS[op](*new)
            elif H(op, *args) == f:
                r = H(op, *new)
            else:
                r = H('given', op, *new)
        self.memo[f] = r
        return r


NUMOPS = {'+': n_add, '-': n_sub, '*': n_mul, '/': n_div, '**': n_pow}


def _eq_given(a, b, ctx):
    """equal if the conditions of the path are also used inside of operations
    and loops"""
    if a.p[0] not in ('n', 'arr', 't') or b.p[0] not in ('n', 'arr', 't'):
        return False
    if not has_dd(payload_fps(a.p)) and not has_dd(payload_fps(b.p)):
        return False
    g = Given(ctx)
    try:
        return g.leaf_fp(a) == g.leaf_fp(b)
    except (Blowup, RecursionError):
        return False


def satisfiable(g, limit=200000):
    """a feasible path on which boolean diagram g is true, or None"""
    m = compare(g, FALSE, TRUE, limit=limit)
    return m


def leaf_eq(x, y):
    if x is y:
        return True
    if x.p[0] in ('t',) and y.p[0] in ('t',):
        return len(x.p[2]) == len(y.p[2]) and all(
            compare(u, v) is None for u, v in zip(x.p[2], y.p[2]))
    return to_fp(x) == to_fp(y)


# ------------------------------------------------------------------- printing
def show_fp(f, d=4):
    if f in CONST:
        c = CONST[f]
        if c.denominator == 1:
            return str(c.numerator)
        return repr(float(c))
    n = NODE.get(f)
    if n is None:
        m = CONST.get((P - f) % P)
        if m is not None:
            return '-' + show_fp((P - f) % P)
        return '#%x' % (f & 0xffff)
    op, args = n
    if op in ('attr',):
        return '{}.{}'.format(show_fp(args[0], d - 1), args[1])
    if op == 'param':
        return args[0]
    if op == 'str':
        return repr(args[0])
    if d <= 0:
        return '..'
    if op in ('+', '-', '*', '/', '**'):
        return '({} {} {})'.format(show_fp(args[0], d - 1), op,
                                   show_fp(args[1], d - 1))
    if op == 'sel':
        return '{}[{}]'.format(show_fp(args[0], d - 1), show_key(args[1], d))
    return '{}({})'.format(op, ', '.join(show_arg(a, d - 1) for a in args[:6]))


def show_arg(a, d):
    if isinstance(a, int) and not isinstance(a, bool):
        return show_fp(a, d)
    if isinstance(a, tuple):
        return '(' + ', '.join(show_arg(x, d - 1) for x in a[:6]) + ')'
    return str(a)


def show_key(k, d=3):
    if k[0] == 'i':
        return str(k[1])
    if k[0] == 'k':
        return repr(k[1])
    if k[0] == 'sl':
        return ':'.join('' if x is None else (
            str(x) if not isinstance(x, tuple) else show_fp(x[1], 2))
            for x in k[1:3]) + ('' if k[3] is None else ':' + str(k[3]))
    if k[0] == 'tu':
        return ', '.join(show_key(x, d) for x in k[1:])
    if k[0] == 'v':
        return show_fp(k[1], d - 1)
    return str(k)


def show(v, d=5):
    if v.atom is not None:
        if d <= 0:
            return '..'
        nm = show_fp(v.atom[1], 3)
        if v.atom[0] == 's':
            return '[{}: <0:{} | =0:{} | >0:{}]'.format(
                nm, *[show(k, d - 1) for k in v.kids])
        return '[{} ? {} : {}]'.format(nm, show(v.kids[1], d - 1),
                                       show(v.kids[0], d - 1))
    p = v.p
    if p[0] == 'n':
        return show_fp(p[1], d)
    if p[0] == 'b':
        return str(p[1])
    if p[0] == 's':
        return repr(p[1])
    if p[0] == 't':
        return '(' + ', '.join(show(x, d - 1) for x in p[2]) + ')'
    if p[0] == 'arr':
        return '{}{{{}}}'.format(show_fp(p[1], d - 2), ', '.join(
            '[{}]={}'.format(show_key(k), show(x, d - 1)) for k, x in p[2]))
    if p[0] == 'r':
        return 'ref' + str(p[1:])
    if p[0] == 'none':
        return 'None'
    return str(p[1])


def show_atom(atom, i):
    nm = show_fp(atom[1], 4)
    if atom[0] == 's':
        return '{} {} 0'.format(nm, ['<', '==', '>'][i])
    return nm if i else 'not ' + nm
