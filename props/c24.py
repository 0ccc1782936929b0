"""C24 error measures follow their definitions"""

LEVEL = 'other'
RULE = ('gated value-graph equality of every error measure with its '
        'definition, in both modules that offer it')
ASSUMPTIONS = ['numpy and pandas reductions do what their documentation says']
FLOOR = 30

SHAPE = '''
def shape(y, y_hat):
    if y_hat.ndim == 2:
        y = y[:, None] if y.ndim == 1 else y
    elif y_hat.ndim == 1 and y.ndim == 2:
        y_hat = y_hat[:, None]
    elif y_hat.ndim > 2:
        raise ValueError
    return y, y_hat
'''
R2 = SHAPE + '''
def r_squared(y, y_hat):
    assert not np.isnan(y).any().any()
    y, y_hat = shape(y, y_hat)
    res = ((y - y_hat) ** 2).sum(axis=0)
    tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)
    return 1 - res / tot
'''
R2A = '''
def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
    if r_sqrd is None:
        assert n is None and y is not None and y_hat is not None
        r_sqrd = r_squared(y, y_hat)
        n = y_hat.shape[0]
    else:
        assert n is not None and y is None and y_hat is None
    top = {}
    return top - (top - r_sqrd) * (n - 1) / (n - p - 1)
'''
MEAN = SHAPE + '''
def mean(y, y_hat, roll=False, window=None, min_periods=None):
    y, y_hat = shape(y, y_hat)
    e = {}
    if not roll:
        return e.mean(axis=0)
    return pd.DataFrame(e).rolling(
        window=window, min_periods=min_periods, center=True).mean()
'''
RMSE = '''
def rmse(y, y_hat, roll=False, window=None, min_periods=None):
    return np.sqrt(mean_squared_err(
        y, y_hat, roll=roll, window=window, min_periods=min_periods))
'''
CV = '''
def cv_rmse(y, y_hat, roll=False, window=None, min_periods=None):
    return rmse(y, y_hat, roll=roll, window=window,
                min_periods=min_periods) / np.mean(y)
'''
NORM = '''
def normalized_err(y, y_hat, err_method='MSE', norm='IQR'):
    assert err_method in ('MSE', 'RMSE', 'MSD', 'MAE')
    assert norm in ('IQR', 'range', 'mean', 'median')
    if err_method == 'MSE':
        e = mean_squared_err(y, y_hat)
    elif err_method == 'RMSE':
        e = rmse(y, y_hat)
    elif err_method == 'MSD':
        e = mean_signed_deviation(y, y_hat)
    elif err_method == 'MAE':
        e = mean_abs_err(y, y_hat)
    if norm == 'mean':
        return e / np.mean(y)
    elif norm == 'median':
        return e / np.median(y)
    elif norm == 'IQR':
        q3, q1 = np.percentile(y, [75, 25])
        return e / (q3 - q1)
    elif norm == 'range':
        d = pd.Series(y).describe()
        return e / (d['max'] - d['min'])
'''
MODS = {'_utility.stat_error_measures':
        'np.where(np.asarray(r_sqrd) <= 1.0, 1.0, 100.0)',
        'utility_functions': '1'}


def one(ctx, m, name, text, **o):
    R = ctx.run('{}:{}'.format(m, name), **o)
    S = ctx.spec(text, like=R, **o)
    ctx.same(R, S, ['ret'])
    ctx.raises_when(R, S)


def measures(ctx):
    for m, top in MODS.items():
        one(ctx, m, 'r_squared', R2)
        one(ctx, m, 'r_squared_adj', R2A.format(top),
            no_inline=['r_squared'])
        one(ctx, m, 'mean_squared_err', MEAN.format('(y - y_hat) ** 2'))
        one(ctx, m, 'mean_abs_err', MEAN.format('np.abs(y - y_hat)'))
        one(ctx, m, 'mean_signed_deviation', MEAN.format('y_hat - y'))
        one(ctx, m, 'rmse', RMSE, no_inline=['mean_squared_err'])
        one(ctx, m, 'cv_rmse', CV, no_inline=['rmse'])
        for e in ('MSE', 'RMSE', 'MSD', 'MAE', 'other'):
            for n in ('IQR', 'range', 'mean', 'median', 'other'):
                case(ctx, m, e, n)


def case(ctx, m, e, n):
    from sa.vg import leaf
    o = dict(no_inline=['mean_squared_err', 'rmse', 'mean_signed_deviation',
                        'mean_abs_err'])
    a = dict(err_method=leaf('s', e), norm=leaf('s', n))
    R = ctx.run(m + ':normalized_err', args=dict(a), **o)
    if 'other' in (e, n):
        ctx.rejects(R, '{}:normalized_err {} {}'.format(m, e, n))
        return
    S = ctx.spec(NORM, like=R, args=dict(a), **o)
    ctx.same(R, S, ['ret'], label='{} {} {}'.format(R.label, e, n))
    ctx.raises_when(R, S)


PARTS = [('measures', measures)]
