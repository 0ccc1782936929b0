"""C38 thermal building blocks and series helpers"""
import ast

from .model import CORR

LEVEL = 'other'
RULE = ('gated value-graph equality of each building block with its textbook '
        'formula (written over the same inputs); iterations of parallel loops '
        'write only what belongs to their own index')
ASSUMPTIONS = ['numpy functions do what their documentation says',
               'floats are reals: rounding is out of scope']
FLOOR = 20

MODS = ('precomp_funs', '_precompiled.precomp_funs')

# name -> (text, observed)
BLOCKS = {
    # resistances in series, related to the inner surface
    'UA_fld_wll_ins_amb_cyl': ('''
def f(A_i, r_ln_wll, r_ln_ins, r_rins, alpha_i, alpha_inf, lam_wll, lam_ins,
      out):
    R = 1 / alpha_i
    R = R + r_ln_wll / lam_wll
    R = R + r_ln_ins / lam_ins
    R = R + r_rins / alpha_inf
    out[:] = A_i / R
''', ['out[:]']),
    'UA_fld_wll_amb_cyl': ('''
def f(A_i, r_ln_wll, r_ro, alpha_i, alpha_inf, lam_wll, UA):
    UA[:] = A_i / (1 / alpha_i + r_ln_wll / lam_wll + r_ro / alpha_inf)
''', ['UA[:]']),
    'UA_fld_wll_cyl': ('''
def f(A_i, r_i, r_o, alpha_i, lam_wll, UA):
    UA[:] = A_i / (1 / alpha_i
                   + r_i * np.log((r_o / r_i + 1) / 2) / lam_wll)
''', ['UA[:]']),
    'UA_wll_ins_amb_cyl': ('''
def f(A_i, r_i, r_o, r_ln_ins, r_rins, alpha_inf, lam_wll, lam_ins, UA):
    UA[:] = A_i / (r_i * np.log(2 / (r_i / r_o + 1)) / lam_wll
                   + r_ln_ins / lam_ins + r_rins / alpha_inf)
''', ['UA[:]']),
    'UA_wll_amb_cyl': ('''
def f(A_i, r_i, r_o, alpha_inf, lam_wll, UA):
    UA[:] = A_i / (r_i * np.log(2 / (r_i / r_o + 1)) / lam_wll
                   + r_i / r_o / alpha_inf)
''', ['UA[:]']),
    'UA_fld_wll_plate': ('''
def f(A, s_wll, alpha_fld, lam_wll):
    return A / (1 / alpha_fld + s_wll / lam_wll)
''', ['ret']),
    'UA_fld_wll_ins_amb_plate': ('''
def f(A, s_wll, s_ins, alpha_fld, alpha_inf, lam_wll, lam_ins):
    return A / (1 / alpha_fld + s_wll / lam_wll + s_ins / lam_ins
                + 1 / alpha_inf)
''', ['ret']),
    'UA_wll_ins_amb_plate': ('''
def f(A, s_wll, s_ins, lam_wll, lam_ins, alpha_inf):
    return A / (s_wll / lam_wll + s_ins / lam_ins + 1 / alpha_inf)
''', ['ret']),
    # the heat flow through the wall leaves at the surface
    'surface_temp_steady_state': ('''
def f(T, T_inf, A_s, alpha_inf, UA):
    return T_inf + UA * (T - T_inf) / (alpha_inf * A_s)
''', ['ret']),
    'surface_temp_steady_state_inplace': ('''
def f(T, T_inf, A_s, alpha_inf, UA, T_s):
    T_s[:] = T_inf + UA * (T - T_inf) / (alpha_inf * A_s)
''', ['T_s[:]']),
    'log_mean_temp_diff': ('''
def f(T_A_one, T_A_two, T_B_one, T_B_two):
    a = T_A_one - T_A_two
    b = T_B_one - T_B_two
    return (a - b) / np.log(a / b)
''', ['ret']),
    # Reynolds number of a pipe
    'pipe_get_Re2': ('''
def f(dm, rho, ny, A, d_i, Re):
    Re[:] = dm / (rho * A) * d_i / ny
''', ['Re[:]']),
    'pipe_get_Re': ('''
def f(dm, rho, ny, A, d_i, Re):
    Re[:] = abs(dm / (rho * A)) * d_i / ny
''', ['Re[:]']),
    # cells
    '_lambda_mean': ('''
def f(lam_T):
    return 2 / (1 / lam_T[:-1] + 1 / lam_T[1:])
''', ['ret']),
    'cell_temp_props': ('''
def f(T, V_cell, cp_T, rho_T, mcp_wll, rhocp, mcp, ui):
    rhocp[:] = rho_T * cp_T
    mcp[:] = V_cell * rho_T * cp_T + mcp_wll
    ui[:] = cp_T * T
''', ['rhocp[:]', 'mcp[:]', 'ui[:]']),
    'water_mat_props_ext': ('''
def f(T_ext):
    T = T_ext[1:-1]
    return cp_water(T_ext), lambda_water(T), rho_water(T), ny_water(T)
''', ['ret']),
    # steps
    'euler_forward': ('''
def f(diff, diff_input_args, yprev, _h):
    return yprev + diff(*diff_input_args) * _h
''', ['ret']),
    'fixed_point_to_root': ('''
def f(y, fp_fun, y_prev, h, input_args):
    return y - fp_fun(y, y_prev, h, input_args)
''', ['ret']),
    # series
    'moving_avg': ('''
def f(x, N):
    arr = np.zeros(x.shape[0] + 1)
    arr[1:] = x
    s = np.cumsum(arr)
    return (s[N:] - s[:-N]) / N
''', ['ret']),
    'fill_edges': ('''
def f(x, new_length):
    n = x.shape[0]
    left = (new_length - n) // 2 + (new_length - n) % 2
    out = np.zeros(new_length)
    out[left:left + n] = x
    out[:left] = x[0]
    out[n + left:] = x[-1]
    return out
''', ['ret']),
    'moving_avg_fill_edges': ('''
def f(x, N):
    return fill_edges(moving_avg(x, N), x.shape[0])
''', ['ret']),
    'weighted_moving_avg': ('''
def f(x, wght, fill_edges=False):
    N = wght.size
    n = x.shape[0] - N + 1
    if fill_edges:
        left = (x.shape[0] - n) // 2 + (x.shape[0] - n) % 2
        out = np.zeros(x.shape[0])
    else:
        left = 0
        out = np.zeros(n)
    for i in range(n):
        out[i + left] = (x[i:i + N] * wght).sum()
    if fill_edges:
        out[:left] = out[left]
        out[n + left:] = out[i + left]
    return out
''', ['ret']),
    'root_finder': ('''
def f(poly_coeff, roots):
    out = np.zeros((roots.shape[0], poly_coeff.shape[0] - 1),
                   dtype=np.complex128)
    for i in range(roots.shape[0]):
        c = poly_coeff.copy()
        c[-1] = poly_coeff[-1] - roots[i]
        out[i, :] = np.roots(c)
    return out
''', ['ret']),
}

MODEL_UA = '''
def use(a, b, c):
    return {0}(a), {0}(a, b), {0}(a, b, c)
'''
UA = {
    'series_circuit_UA': '''
def use(a, b, c):
    return a, 1 / (1 / a + 1 / b), 1 / (1 / a + 1 / b + 1 / c)
''',
    'parallel_circuit_UA': '''
def use(a, b, c):
    return a, a + b, a + b + c
'''}


def blocks(ctx):
    for m in MODS:
        for name in BLOCKS:
            text, what = BLOCKS[name]
            R = ctx.run('{}:{}'.format(m, name))
            S = ctx.spec(text, like=R)
            ctx.same(R, S, what)
            ctx.raises_when(R, S)


def circuits(ctx):
    for m in MODS:
        for name in UA:
            R = ctx.spec(MODEL_UA.format(name), module=m)
            R.label = '{}:{}'.format(m, name)
            S = ctx.spec(UA[name], module=m)
            ctx.same(R, S, ['ret'])


ALPHA = CORR + """
def f(dm, T, rho, ny, lam_fld, A, d_i, x, alpha):
    # fluid temperatures in the first, wall temperatures in the second column
    xi = x[::-1] if dm[0] < 0 else x
    Re = np.abs(dm / (rho * A)) * d_i / ny
    Pr = w_Pr(T)
    P = Pr[:, 0]
    lam = (49.371 + (1.077 * (Re * P * d_i / xi) ** (1 / 3) - 0.7) ** 3
           ) ** (1 / 3)
    nu = np.where(Re > 2300, nu_turb(Re, P, d_i / xi, 1 / 3), lam)
    alpha[:] = nu * (P / Pr[:, 1]) ** 0.11 * lam_fld / d_i
"""

ROLL = """
def agg(w, method):
    if method == 'mean':
        return w.mean()
    if method == 'median':
        return w.median()
    if method == 'sum':
        return w.sum()
    if method == 'min':
        return w.min()
    return w.max()
def f(df, window, min_periods=0.0, method='mean', win_type=None, on=None,
      axis=0, closed='left'):
    df = df.copy()
    assert method in ('mean', 'max', 'min', 'median', 'sum')
    if df.index.freq is None:
        df.index.freq = df.index.inferred_freq
    assert df.index.freq is not None
    assert isinstance(window, str)
    span = pd.to_timedelta(window)
    if isinstance(min_periods, str):
        least = int(pd.to_timedelta(min_periods) / df.index.freq)
    elif min_periods is None:
        least = None
    else:
        least = int(min_periods)
    n = span / df.index.freq
    if abs(n - int(n)) < 1e-16:
        # whole number of steps: centered by pandas, by position
        stamps = df.index
        df.index = np.arange(df.shape[0])
        df = agg(df.rolling(window=int(span / stamps.freq), min_periods=least,
                            center=True, win_type=win_type, on=on, axis=axis,
                            closed=None), method)
        df.index = stamps
        return df
    return agg(df.rolling(window=window, min_periods=least, center=False,
                          win_type=win_type, on=on, axis=axis, closed=closed),
               method).shift(-int(n / 2))
"""


def alpha(ctx):
    for m in MODS:
        R = ctx.run(m + ':pipe_alpha_i_wll_sep')
        ctx.same(R, ctx.spec(ALPHA, like=R), ['alpha[:]'])


def rolling(ctx):
    R = ctx.run('utility_functions:rolling_centered')
    S = ctx.spec(ROLL, like=R)
    ctx.same(R, S, ['ret'])
    ctx.raises_when(R, S)


def base(t):
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        t = t.value
    return t.id if isinstance(t, ast.Name) else None


def parallel(ctx):
    """iterations of a parallel loop run in any order and at the same time:
    what lives outside may only be written at the own index"""
    n = 0
    for m in ctx.prog.modules.values():
        name = m.path.rsplit('multisim/', 1)[-1]
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            for l in ast.walk(fn):
                if not (isinstance(l, ast.For) and isinstance(
                        l.iter, ast.Call) and (getattr(
                            l.iter.func, 'attr', None) or getattr(
                            l.iter.func, 'id', None)) == 'prange'):
                    continue
                n += 1
                own = {x.id for x in ast.walk(l.target)
                       if isinstance(x, ast.Name)}
                # names bound anew by every iteration before they are written
                local = set()
                bad = []
                for s in ast.walk(l):
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            for e in (t.elts if isinstance(
                                    t, (ast.Tuple, ast.List)) else [t]):
                                if isinstance(e, ast.Name):
                                    local.add(e.id)
                                    if any(isinstance(x, ast.Name) and
                                           x.id in own
                                           for x in ast.walk(s.value)):
                                        own.add(e.id)
                for s in ast.walk(l):
                    ts = s.targets if isinstance(s, ast.Assign) else [
                        s.target] if isinstance(s, ast.AugAssign) else []
                    for t in ts:
                        for e in (t.elts if isinstance(
                                t, (ast.Tuple, ast.List)) else [t]):
                            if not isinstance(e, ast.Subscript) or \
                                    base(e) in local:
                                continue
                            if not any(isinstance(x, ast.Name) and x.id in own
                                       for x in ast.walk(e.slice)):
                                bad.append(s)
                ctx.record(
                    '{}:{} parallel loop'.format(name, fn.name),
                    'violated' if bad else 'discharged', 'shared array written at the same place by '
                    'every iteration: ' + '; '.join(
                        ast.unparse(b) for b in bad) if bad else '',
                    (m.path, (bad or [l])[0].lineno, fn.name), rule='race')
    ctx.record('%d parallel loops' % n, 'discharged', rule='race')


PARTS = [('blocks', blocks), ('alpha', alpha), ('rolling', rolling),
         ('circuits', circuits), ('parallel', parallel)]
