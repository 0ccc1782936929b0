"""C32 error measures and preparation of time series"""

from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of the returned error measures and '
        'resampled series and of the conditions under which inputs are '
        'rejected')
ASSUMPTIONS = ['pandas and numpy methods do what their documentation says; '
               'the optional package toolbox is not installed']
FLOOR = 40

ALIGN = '''
def al(y, y_hat):
    """column wise comparison; more than two dimensions are rejected"""
    two = y_hat.ndim == 2
    flip = not two and y_hat.ndim == 1 and y.ndim == 2
    if not two and not flip and y_hat.ndim > 2:
        raise ValueError
    a = y[:, None] if two and y.ndim == 1 else y
    b = y_hat[:, None] if flip else y_hat
    return a, b
def roll_mean(e, roll, window, min_periods):
    if roll:
        return pd.DataFrame(e).rolling(
            window=window, min_periods=min_periods, center=True).mean()
    return e.mean(axis=0)
def mse(y, y_hat, roll, window, min_periods):
    a, b = al(y, y_hat)
    return roll_mean((a - b) ** 2, roll, window, min_periods)
def mae(y, y_hat, roll, window, min_periods):
    a, b = al(y, y_hat)
    return roll_mean(np.abs(a - b), roll, window, min_periods)
def msd(y, y_hat, roll, window, min_periods):
    a, b = al(y, y_hat)
    return roll_mean(b - a, roll, window, min_periods)
def r2(y, y_hat):
    assert not np.isnan(y).any().any()
    a, b = al(y, y_hat)
    return 1 - ((a - b) ** 2).sum(axis=0) / (
        (a - a.mean(axis=0)) ** 2).sum(axis=0)
'''

TEXT = {
    'r_squared': '''
def r_squared(y, y_hat):
    return r2(y, y_hat)
''',
    'mean_squared_err': '''
def mean_squared_err(y, y_hat, roll=False, window=None, min_periods=None):
    return mse(y, y_hat, roll, window, min_periods)
''',
    'mean_abs_err': '''
def mean_abs_err(y, y_hat, roll=False, window=None, min_periods=None):
    return mae(y, y_hat, roll, window, min_periods)
''',
    'mean_signed_deviation': '''
def mean_signed_deviation(y, y_hat, roll=False, window=None,
                          min_periods=None):
    return msd(y, y_hat, roll, window, min_periods)
''',
    'rmse': '''
def rmse(y, y_hat, roll=False, window=None, min_periods=None):
    return np.sqrt(mse(y, y_hat, roll, window, min_periods))
''',
    'cv_rmse': '''
def cv_rmse(y, y_hat, roll=False, window=None, min_periods=None):
    return np.sqrt(mse(y, y_hat, roll, window, min_periods)) / np.mean(y)
''',
    'normalized_err': '''
def normalized_err(y, y_hat, err_method='MSE', norm='IQR'):
    assert (err_method == 'MSE' or err_method == 'RMSE'
            or err_method == 'MSD' or err_method == 'MAE')
    assert (norm == 'IQR' or norm == 'range' or norm == 'mean'
            or norm == 'median')
    if err_method == 'MSE':
        e = mse(y, y_hat, False, None, None)
    elif err_method == 'RMSE':
        e = np.sqrt(mse(y, y_hat, False, None, None))
    elif err_method == 'MSD':
        e = msd(y, y_hat, False, None, None)
    else:
        e = mae(y, y_hat, False, None, None)
    if norm == 'mean':
        return e / np.mean(y)
    if norm == 'median':
        return e / np.median(y)
    if norm == 'range':
        d = pd.Series(y).describe()
        return e / (d['max'] - d['min'])
    q = np.percentile(y, [75, 25])
    return e / (q[0] - q[1])
''',
}

ADJ = {
    'utility_functions': '''
def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
    if r_sqrd is None:
        assert n is None and y is not None and y_hat is not None
        r = r2(y, y_hat)
        m = y_hat.shape[0]
    else:
        assert n is not None and y is None and y_hat is None
        r = r_sqrd
        m = n
    return 1 - (1 - r) * (m - 1) / (m - p - 1)
''',
    '_utility.stat_error_measures': '''
def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
    if r_sqrd is None:
        assert n is None and y is not None and y_hat is not None
        r = r2(y, y_hat)
        m = y_hat.shape[0]
    else:
        assert n is not None and y is None and y_hat is None
        r = r_sqrd
        m = n
    top = np.where(np.asarray(r) <= 1.0, 1.0, 100.0)
    return top - (top - r) * (m - 1) / (m - p - 1)
''',
}

BC = '''
def make_boundarycond_timeseries(bc_array, bc_freq, ts_start, ts_duration,
                                 ts_freq, bc_too_short='error',
                                 downsample_method='mean',
                                 upsample_method='ffill'):
    assert isinstance(bc_array, np.ndarray)
    assert bc_array.ndim == 1
    assert type(bc_freq) == float or type(bc_freq) == int
    assert type(ts_start) == str
    assert type(ts_duration) == float or type(ts_duration) == int
    assert type(ts_freq) == float or type(ts_freq) == int
    assert type(bc_too_short) == str
    assert bc_too_short == 'error' or bc_too_short == 'stack'
    old = str(int(1 / bc_freq * 1e9)) + 'ns'
    new = str(int(1 / ts_freq * 1e9)) + 'ns'
    idx = pd.date_range(start=ts_start, periods=bc_array.shape[0], freq=old)
    bc = pd.Series(data=bc_array, index=idx)
    start = idx[0]
    have = bc.index[-1] - bc.index[0]
    want = pd.Timedelta(seconds=ts_duration)
    if have > want:
        bc = bc[start:start + want]
    elif have < want:
        if bc_too_short == 'error':
            raise ValueError
        more = bc_array
        for i in range(np.ceil(want / have).astype(int)):
            more = np.hstack((more, bc_array))
        bc = pd.Series(data=more, index=pd.date_range(
            start=ts_start, periods=more.shape[0], freq=old))
        bc = bc[start:start + want]
    if ts_freq <= bc_freq:
        return getattr(bc.resample(new), downsample_method)()
    return getattr(bc.resample(new), upsample_method)()
'''

UNEVEN = '''
def process_unevenly_spaced_timeseries(*, data, freq, how):
    assert isinstance(data, (pd.Series, pd.DataFrame))
    assert type(data.index) == pd.DatetimeIndex
    assert type(freq) == str
    assert type(how) == str
    assert (how == 'interpolate' or how == 'forward_fill'
            or how == 'backward_fill')
    if how == 'interpolate':
        return data.resample(freq).mean().interpolate()
    if how == 'forward_fill':
        return data.resample(freq).ffill()
    return data.resample(freq).bfill()
'''

FIT = '''
def fit_time_series(*, pred, rlz, resample_uneven=True, freq=None, how=None,
                    return_df=False):
    assert isinstance(pred, pd.Series)
    assert isinstance(rlz, pd.Series)
    a = pred
    b = rlz
    if isinstance(pred.index, pd.DatetimeIndex):
        assert isinstance(rlz.index, pd.DatetimeIndex)
        f = pd.tseries.frequencies.to_offset(freq)
        if f is None:
            f = rlz.index.freq
        do_a = pred.index.freq is None or pred.index.freq != f
        do_b = rlz.index.freq is None or rlz.index.freq != f
        if do_a or do_b:
            assert resample_uneven
            assert freq is not None
            assert how is not None
        if do_a:
            a = process_unevenly_spaced_timeseries(data=pred, freq=freq,
                                                   how=how)
        if do_b:
            b = process_unevenly_spaced_timeseries(data=rlz, freq=freq,
                                                   how=how)
    assert a.shape == b.shape
    if return_df:
        return pd.concat((a, b), axis=1)
    return a, b
'''

PERF = '''
def ts_performance_indicators(*, pred, rlz, exclude_zeros=True,
                              exclude_values=None, exclude_range=None,
                              resample_uneven=True, freq=None, how=None):
    d = fit_time_series(pred=pred, rlz=rlz, resample_uneven=resample_uneven,
                        freq=freq, how=how, return_df=True)
    assert isinstance(exclude_zeros, bool)
    if exclude_zeros:
        d = d.loc[(d != 0).all(axis=1)]
    assert exclude_values is None
    assert exclude_range is None
    e = d.iloc[:, 0] - d.iloc[:, 1]
    s = d.iloc[:, 1].describe()
    n = e.size
    mse = (e ** 2).sum() / n
    rm = np.sqrt(mse)
    mbe = e.sum() / n
    return pd.Series(
        data=[n, mbe, e.abs().sum() / n, mbe / s['mean'], rm ** 2, rm,
              rm / s['mean'], rm / (s['max'] - s['min']),
              rm / abs(s['75%'] - s['25%']),
              1 - (e ** 2).sum() / (s['std'] ** 2 * (s['count'] - 1))],
        index=['n_samples', 'MBE', 'MAE', 'NMBE', 'MSE', 'RMSE', 'CV(RMSE)',
               'NRMSE', 'NRMSE_IQR', 'R2'])
'''


def _ret(ctx, target, text, **o):
    R = ctx.run(target, **o)
    S = ctx.spec(text, like=R, **o)
    ctx.same(R, S, ['exc', 'ret'])
    return R, S


def measures(mod):
    def part(ctx):
        for n, t in TEXT.items():
            _ret(ctx, mod + ':' + n, ALIGN + t)
        _ret(ctx, mod + ':r_squared_adj', ALIGN + ADJ[mod])
    return part


def boundary(ctx):
    _ret(ctx, 'utility_functions:make_boundarycond_timeseries', BC)


def prepare(ctx):
    _ret(ctx, 'utility_functions:process_unevenly_spaced_timeseries', UNEVEN)
    _ret(ctx, 'utility_functions:is_evenly_spaced', '''
def is_evenly_spaced(data, return_freq=False):
    assert isinstance(data.index, pd.DatetimeIndex)
    if return_freq:
        return data.index.freq is not None, data.index.freq
    return data.index.freq is not None
''')
    o = dict(no_inline=['process_unevenly_spaced_timeseries'])
    _ret(ctx, 'utility_functions:fit_time_series', FIT, **o)


def indicators(ctx):
    o = dict(no_inline=['fit_time_series'])
    _ret(ctx, 'utility_functions:ts_performance_indicators', PERF, **o)


OUT = {
    'std': '''
def remove_outliers_std(*, data, stdevs=3, fill_value='interpolate'):
    assert isinstance(data, (np.ndarray, pd.Series, pd.DataFrame))
    assert isinstance(stdevs, (int, float))
    assert stdevs > 0
    assert fill_value in ['interpolate', 'nan', 'remove'] or isinstance(
        fill_value, (int, float))
    ok = np.abs(data - data.mean()) <= stdevs * data.std()
    if fill_value == 'remove':
        return data[ok]
    if fill_value == 'interpolate':
        data[~ok] = np.nan
        return data.interpolate(method='index', axis=0)
    if fill_value == 'nan':
        data[~ok] = np.nan
        return data
    data[~ok] = fill_value
    return data
''',
    'mad': '''
def remove_outliers_mad(*, data, threshold=2.5, fill_value='interpolate',
                        rolling=False, window='1H', dist_const=1.4826):
    if isinstance(data, (pd.Series, pd.DataFrame)):
        d = data.copy()
    else:
        d = pd.Series(data=data)
    if rolling:
        raise NotImplementedError
    m = d.median()
    bad = np.abs(d - m) > threshold * dist_const * (d - m).abs().median()
    d[bad] = np.nan
    if fill_value == 'interpolate':
        return d.interpolate(method='index', axis=0)
    if fill_value == 'nan':
        return d
    if fill_value == 'remove':
        return d[~bad]
    d[bad] = fill_value
    return d
''',
    'roll': '''
def remove_outliers_roll(*, data, window=3, stdevs=3,
                         fill_value='interpolate'):
    d = data.copy()
    assert isinstance(d, (pd.Series, pd.DataFrame))
    assert isinstance(window, int)
    assert window > 0
    assert isinstance(stdevs, (int, float))
    assert stdevs > 0
    assert fill_value in ['interpolate', 'nan', 'remove'] or isinstance(
        fill_value, (int, float))
    m = d.rolling(window=window, center=True, axis=0).median()
    dist = np.abs(d - m.fillna(method='bfill').fillna(method='ffill'))
    bad = dist > dist.std() * stdevs
    if fill_value == 'remove':
        return d[~bad]
    if fill_value == 'interpolate':
        d.values[bad.values] = np.nan
        try:
            return d.interpolate(method='index', limit_area='inside', axis=0)
        except TypeError:
            f = d.index.freq
            d.index = d.index.to_timestamp()
            d = d.interpolate(method='index', limit_area='inside', axis=0)
            d.index = d.index.to_period(f)
            return d
    if fill_value == 'nan':
        d.values[bad.values] = np.nan
        return d
    d[bad] = fill_value
    return d
''',
}


def outliers(ctx):
    for k, t in OUT.items():
        _ret(ctx, 'utility_functions:remove_outliers_' + k, t)


PARTS = [('measures', measures('_utility.stat_error_measures')),
         ('old measures', measures('utility_functions')),
         ('boundary', boundary), ('prepare', prepare),
         ('indicators', indicators), ('outliers', outliers)]
