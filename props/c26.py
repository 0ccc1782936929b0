"""C26 fluid properties and dimensionless numbers"""
from fractions import Fraction

from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of every copy of a material property '
        'function, and exact range analysis (interval subdivision over the '
        'rationals) of the polynomial read off the value graph against '
        'tabulated values and against the relations between the properties')
ASSUMPTIONS = ['tables: saturated liquid water and dry air at 0.1 MPa, '
               'VDI-Waermeatlas / IAPWS values']
FLOOR = 60

MODS = ['precomp_funs', '_precompiled.material_properties',
        '_precompiled.precomp_funs']
# name -> (returning functions, filling functions, output argument)
GROUPS = {
    'rho': ('rho_water', 'get_rho_water', 'rho'),
    'lam': ('lambda_water', 'get_lambda_water', 'lam'),
    'cp': ('cp_water', 'get_cp_water', 'cp'),
    'ny': ('ny_water', 'get_ny_water', 'ny'),
    'Pr': ('Pr_water_return', 'get_Pr_water', 'Pr'),
    'beta': ('beta_water_return', 'get_beta_water', 'beta'),
    'rho_air': (None, 'get_rho_dryair', 'rho'),
    'lam_air': ('lam_dryair_return', 'get_lam_dryair', 'lam'),
    'ny_air': ('ny_dryair_return', 'get_ny_dryair', 'ny'),
    'p_sat': ('humid_air_saturation_pressure', None, None),
    'x_sat': ('humid_air_sat_water_mass', None, None),
}
# tabulated values, and the largest relative deviation of the fit from them
TABLE = {
    'rho': (0.002, {0: 999.84, 10: 999.7, 20: 998.2, 30: 995.7, 40: 992.2,
                    50: 988.0, 60: 983.2, 70: 977.8, 80: 971.8, 90: 965.3,
                    100: 958.4}),
    'cp': (0.003, {0: 4219, 10: 4195, 20: 4185, 30: 4180, 40: 4179, 50: 4180,
                   60: 4183, 70: 4188, 80: 4196, 90: 4205, 100: 4217}),
    'lam': (0.02, {0: .5611, 10: .5800, 20: .5984, 30: .6155, 40: .6306,
                   50: .6436, 60: .6543, 70: .6631, 80: .6700, 90: .6753,
                   100: .6791}),
    'ny': (0.05, {0: 1.792e-6, 10: 1.307e-6, 20: 1.004e-6, 30: .801e-6,
                  40: .658e-6, 50: .554e-6, 60: .475e-6, 70: .413e-6,
                  80: .365e-6, 90: .326e-6, 100: .294e-6}),
    'Pr': (0.09, {0: 13.5, 10: 9.45, 20: 7.00, 30: 5.41, 40: 4.32, 50: 3.55,
                  60: 2.98, 70: 2.55, 80: 2.22, 90: 1.97}),
    'beta': (0.03, {20: 2.07e-4, 30: 3.03e-4, 40: 3.85e-4, 50: 4.57e-4,
                    60: 5.23e-4, 70: 5.84e-4, 80: 6.42e-4, 90: 6.96e-4,
                    100: 7.5e-4}),
    'rho_air': (0.02, {0: 1.275, 10: 1.230, 20: 1.188, 30: 1.149,
                       40: 1.112, 60: 1.045, 80: .9859, 100: .9329}),
    'lam_air': (0.02, {0: .02436, 20: .02587, 40: .02735, 60: .02880,
                       80: .03023, 100: .03162}),
    'ny_air': (0.02, {0: 13.52e-6, 20: 15.35e-6, 40: 17.26e-6, 60: 19.27e-6,
                      80: 21.35e-6, 100: 23.51e-6}),
    'p_sat': (0.03, {0: 611.2, 10: 1228, 20: 2339, 30: 4247, 40: 7384,
                     50: 12352, 60: 19946, 70: 31201, 80: 47415}),
    'x_sat': (0.05, {0: .003821, 10: .007733, 20: .01488, 30: .02759,
                     40: .04959, 50: .08765, 60: .1550, 70: .2821,
                     80: .5610}),
}
# functions which grow or shrink over the whole interval
MONO = {'rho': (10, 100, -1), 'ny': (0, 90, -1), 'Pr': (0, 90, -1),
        'lam': (0, 100, 1), 'beta': (10, 100, 1), 'rho_air': (0, 100, -1),
        'lam_air': (0, 100, 1), 'ny_air': (0, 100, 1), 'p_sat': (0, 80, 1),
        'x_sat': (0, 80, 1)}


def poly(fp, var, memo):
    """coefficients of the number as a polynomial of var, or None"""
    if fp in memo:
        return memo[fp]
    if fp == var:
        r = [Fraction(0), Fraction(1)]
    elif fp in vg.CONST:
        r = [Fraction(vg.CONST[fp])]
    else:
        r = None
        n = vg.NODE.get(fp)
        if n is not None:
            op, a = n
            if op in ('+', '-', '*', '/'):
                x, y = poly(a[0], var, memo), poly(a[1], var, memo)
                if x is not None and y is not None:
                    if op == '*':
                        r = pmul(x, y)
                    elif op == '/':
                        if len(y) == 1 and y[0]:
                            r = [c / y[0] for c in x]
                    else:
                        k = max(len(x), len(y))
                        x = x + [Fraction(0)] * (k - len(x))
                        y = y + [Fraction(0)] * (k - len(y))
                        r = [p + q if op == '+' else p - q
                             for p, q in zip(x, y)]
            elif op in ('**', 'pow') and len(a) == 2:
                x = poly(a[0], var, memo)
                e = vg.CONST.get(a[1]) if op == '**' else Fraction(a[1])
                if x is not None and e is not None and \
                        e.denominator == 1 and 0 <= e <= 64:
                    r = [Fraction(1)]
                    for _ in range(int(e)):
                        r = pmul(r, x)
    memo[fp] = r
    return r


def pmul(x, y):
    r = [Fraction(0)] * (len(x) + len(y) - 1)
    for i, p in enumerate(x):
        for j, q in enumerate(y):
            r[i + j] += p * q
    return r


def padd(x, y, s=1):
    k = max(len(x), len(y))
    x = x + [Fraction(0)] * (k - len(x))
    y = y + [Fraction(0)] * (k - len(y))
    return [p + s * q for p, q in zip(x, y)]


def bounds(p, lo, hi, pieces=16):
    """enclosure of the range of p on [lo, hi] (Taylor form around the centre
    of each piece)"""
    out = None
    for k in range(pieces):
        a = Fraction(lo) + (Fraction(hi) - lo) * k / pieces
        b = Fraction(lo) + (Fraction(hi) - lo) * (k + 1) / pieces
        c, h = (a + b) / 2, (b - a) / 2
        q = list(p)
        t = []
        while q:                # coefficients around c by repeated division
            r = Fraction(0)
            nq = []
            for co in reversed(q):
                r = r * c + co
                nq.append(r)
            t.append(nq.pop())
            q = list(reversed(nq))
        w = sum(abs(x) * h ** i for i, x in enumerate(t) if i)
        l, u = t[0] - w, t[0] + w
        out = (l, u) if out is None else (min(out[0], l), max(out[1], u))
    return out


def var(R):
    return vg.dd_fp(R.pre('T'))


def copies(ctx):
    """every copy of a function computes the same"""
    polys = {}
    for g, (ret, fill, arg) in GROUPS.items():
        first = None
        for m in MODS:
            for name in (ret, fill):
                if name is None:
                    continue
                R = ctx.run('{}:{}'.format(m, name))
                v = R.get('ret') if name == ret else R.get(arg)
                if first is None:
                    first = (v, name)
                    p = poly(vg.dd_fp(v), var(R), {})
                    ctx.record('{}: polynomial of the temperature'.format(
                        name), 'discharged' if p else 'undecided',
                        '' if p else 'not a polynomial', R.where('ret'),
                        'polynomial')
                    polys[g] = (p, R.where('ret' if name == ret else
                                           arg), name)
                    continue
                ctx.equal('{}:{} agrees with {}'.format(m, name, first[1]),
                          v, first[0], loc=R.where('ret'))
    return polys


def check(ctx, ok, label, text, loc):
    ctx.record(label, 'discharged' if ok else 'violated', '' if ok else text,
               loc, 'range')


def ranges(ctx, polys):
    for g, (tol, tab) in TABLE.items():
        p, loc, name = polys[g]
        if p is None:
            continue
        ts = sorted(tab)
        for a, b in zip(ts, ts[1:]):
            va, vb = Fraction(tab[a]), Fraction(tab[b])
            # between two table values the fit stays within the tolerance of
            # the span of both
            lo, hi = min(va, vb), max(va, vb)
            l, u = bounds(p, a, b)
            ok = l >= lo - abs(lo) * Fraction(tol) and \
                u <= hi + abs(hi) * Fraction(tol)
            check(ctx, ok, '{}: {}..{} degC'.format(name, a, b),
                  'range [{:.6g}, {:.6g}], table {:.6g}..{:.6g}'.format(
                      float(l), float(u), float(va), float(vb)), loc)
        for t in ts:
            v = bounds(p, t, t, 1)[0]
            w = Fraction(tab[t])
            check(ctx, abs(v - w) <= tol * abs(w),
                  '{}: value at {} degC'.format(name, t),
                  '{:.6g}, table {:.6g}'.format(float(v), float(w)), loc)
    for g, (a, b, s) in MONO.items():
        p, loc, name = polys[g]
        if p is None:
            continue
        d = [s * i * c for i, c in enumerate(p)][1:] or [Fraction(0)]
        l, _ = bounds(d, a, b, 64)
        check(ctx, l > 0, '{}: monotonic over {}..{} degC'.format(name, a, b),
              'slope bound {:.3g}'.format(float(l)), loc)
    # Pr = ny rho cp / lam, beta = -rho'/rho
    q = {g: polys[g][0] for g in ('Pr', 'ny', 'rho', 'cp', 'lam', 'beta')}
    if all(q.values()):
        lhs = pmul(q['Pr'], q['lam'])
        rhs = pmul(pmul(q['ny'], q['rho']), q['cp'])
        for a in range(0, 90, 10):
            l, u = bounds(padd(lhs, rhs, -1), a, a + 10, 8)
            m, _ = bounds(rhs, a, a + 10, 8)
            check(ctx, max(abs(l), abs(u)) <= Fraction(12, 100) * m,
                  'Pr = ny rho cp / lam: {}..{} degC'.format(a, a + 10),
                  'off by up to {:.3g} of {:.3g}'.format(
                      float(max(abs(l), abs(u))), float(m)),
                  polys['Pr'][1])
    ctx.stats['polynomials'] = sum(1 for p in polys.values() if p[0])


def fluids(ctx):
    ranges(ctx, copies(ctx))


RE = '''
def f(v, L, ny):
    return abs(v) * L / ny
'''

REF = '''
def f(v, L, ny, Re):
    Re[:] = abs(v) * L / ny
'''

RA = '''
def f(T_s, T_inf, Pr, ny, Kelvin, flow_length):
    return abs(T_s - T_inf) * 9.81 * flow_length**3 * Pr / (
        (T_inf + Kelvin) * ny**2)
'''


def numbers(ctx):
    for m in ('precomp_funs', '_precompiled.dimensionless_numbers',
              '_precompiled.precomp_funs'):
        for name, text, what in (('Re_water_return', RE, ['ret']),
                                 ('get_Re_water', REF, ['Re[:]']),
                                 ('rayleigh_number', RA, ['ret'])):
            R = ctx.run('{}:{}'.format(m, name))
            ctx.same(R, ctx.spec(text, like=R), what)


PARTS = [('fluids', fluids), ('numbers', numbers)]
