"""C33 stored results, databases and pipe tables are found and returned whole"""

LEVEL = 'other'
RULE = ('gated value-graph equality of the returned tables and call-trace '
        'equality of the file operations')
ASSUMPTIONS = ['pandas readers, os, glob and shutil do what their '
               'documentation says; a results file as written by a '
               'simulation has exactly one table below its root']
FLOOR = 30

LOAD = '''
def load_sim_results(filename, path='.\\\\results\\\\\\\\', keys='all',
                     multiindex=True):
    if path is not None:
        filename = os.path.join(path, filename)
    if keys == 'all':
        want = keys
    else:
        ks = list(keys) if isinstance(keys, tuple) else keys
        ks = ks if isinstance(ks, list) else [ks]
        want = []
        for k in ks:
            want.append(k if k[0] == '/' else '/' + k)
    with pd.HDFStore(filename, mode='r') as store:
        dfs = {}
        for p, g, lvs in store.walk():
            if p == '':
                if want == 'all' or p + '/' + lvs[0] in want:
                    dfs[lvs[0]] = store[p + '/' + lvs[0]]
            else:
                dfs[p[1:]] = {}
                for lv in lvs:
                    if want == 'all' or p + '/' + lv in want:
                        dfs[p[1:]][lv] = store[p + '/' + lv]
    empty = [k for k, v in dfs.items() if len(v) == 0]
    for k in empty:
        dfs.pop(k, None)
    if len(dfs) == 0:
        raise ValueError
    if not multiindex:
        return dfs
    names = []
    cols = {}
    for k, v in dfs.items():
        if not 'sim_vecs' in k:
            for c, x in v.items():
                names.append((k, c))
                cols[k, c] = x
    df = pd.concat(cols.values(), keys=names, axis=1)
    if 'sim_vecs' not in dfs:
        return df
    return {'data': df, 'sim_vecs': dfs['sim_vecs']}
'''

BYNAME = '''
def load_results_by_name(set_identifier='LHS', set_numbers=[0, 1],
                         set_name='flexplant_base', keys='all',
                         result_file_ending='.h5', sub_dir='finished',
                         base_path='E:\\\\Sim_results\\\\\\\\'):
    assert set_numbers is None or isinstance(set_numbers, (int, list, tuple))
    nums = set_numbers
    if nums is not None and isinstance(nums, int):
        nums = [nums]
    pth = os.path.abspath(os.path.join(base_path, set_name, sub_dir))
    assert os.path.isdir(pth)
    dirs = [d for d in os.listdir(pth) if os.path.isdir(
        os.path.join(pth, d)) and set_identifier in d]
    assert len(dirs) > 0
    if nums is not None:
        dirs = [d for d in dirs if int(_re.findall('\\\\d+', d)[0]) in nums]
        assert len(dirs) > 0
    files = [_glob.glob(os.path.join(pth, d, '*' + result_file_ending))[0]
             for d in dirs]
    res = {}
    for i in range(len(files)):
        res[int(_re.findall('\\\\d+', dirs[i])[0])] = load_sim_results(
            files[i], path='', keys=keys)
    return res
'''

FAILED = '''
def load_failed_results(file, base_pth=None,
                        results_folder='E:\\\\Sim_results\\\\\\\\'):
    base = '' if base_pth is None else base_pth
    with pd.HDFStore(base + results_folder + file, mode='r') as s:
        d = {}
        for k in s.keys():
            _, a, b = k.split('/')
            if a not in d:
                d[a] = {b: s[k]}
            else:
                d[a][b] = s[k]
    return d
'''

DB = '''
def database_import(*, standard_db=True, path=None, which='all'):
    dbs = {}
    if standard_db:
        pth = os.path.join(
            os.path.dirname(os.path.realpath(__file__)), 'data_tables')
    elif path:
        pth = path
    else:
        from tkinter.filedialog import askdirectory
        pth = askdirectory(initialdir='D:/LRZ-SnS/Objekte')
    if which == 'all':
        for f in _glob.glob(os.path.join(pth, '*.pkl')):
            dbs[os.path.basename(f).split('.')[0]] = pd.read_pickle(f)
    else:
        for db in which:
            dbs[db] = pd.read_pickle(os.path.join(pth, db + '.pkl'))
    return dbs
'''

INTERP = '''
def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
    """outside diameter area and roughness interpolated over the inner cross
    section area, everything else from geometry; known sizes unchanged"""
    if base_pth is None:
        ps = pd.read_pickle(os.path.join(
            os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'))
    else:
        ps = pd.read_pickle(base_pth + 'data_tables/pipe_specs.pkl')
    t = ps.loc[:, pipe_type].copy().T
    hi = 0.1
    lo = 1e-5
    ghi = t.iloc[-1] / t.iloc[-2]
    glo = t.iloc[0] / t.iloc[1]
    fhi = hi / t.iloc[-1].A_i * ghi / ghi.A_i
    flo = lo / t.iloc[0].A_i * glo / glo.A_i
    t = t.set_index('A_i')
    t.loc[hi] = t.iloc[-1] * fhi.iloc[1:]
    t.loc[lo] = t.iloc[0] * flo.iloc[1:]
    if isinstance(A_i, (int, float)):
        a = [A_i]
    else:
        if not isinstance(A_i, (list, tuple)):
            raise TypeError
        a = A_i
    for x in a:
        if x not in t.index:
            t.loc[x] = np.nan
    t = t.sort_index().interpolate(method='cubic', limit_area='inside')
    t.loc[a, 'd_i'] = np.sqrt(4 * t.loc[a].index.values / np.pi)
    t.loc[a, 'd_o'] = np.sqrt(4 * t.loc[a, 'A_o'] / np.pi)
    t.loc[a, 's'] = (t.loc[a, 'd_o'] - t.loc[a, 'd_i']) / 2
    t.loc[a, 'A_wall'] = t.loc[a, 'A_o'] - t.loc[a].index.values
    assert not t.isna().any().any()
    return t.loc[a, :].reset_index()
'''

ADJUST = '''
def adjust_pipes(pspecs, base_path=None):
    assert isinstance(pspecs, dict)
    for v in pspecs.values():
        assert isinstance(v, (list, tuple))
        assert len(v) == 2
        assert isinstance(v[0], dict)
        assert isinstance(v[1], (float, int))
    tab = pd.read_pickle(os.path.join(
        os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'))
    area = {k: v[1] * tab.loc['A_i', (v[0]['all']['pipe_type'],
                                      v[0]['all']['DN'])]
            for k, v in pspecs.items()}
    new = interp_pipe_specs(A_i=list(area.values()), base_pth=base_path)
    out = {k: {'all': row[1].to_dict()}
           for k, row in zip(area.keys(), new.iterrows())}
    for k, v in out.items():
        v['all']['pipe_type'] = pspecs[k][0]['all']['pipe_type']
    return out
'''

UPDATE = '''
def one(file, transpose):
    d = pd.read_excel(file, sheet_name='description')
    r = d.iloc[3, 1] - 1
    c = d.iloc[4, 1] - 1
    cols = [x for x in range(int(c))]
    rows = [x for x in range(int(r))]
    db = pd.read_excel(file, sheet_name='data', index_col=cols, header=rows)
    if transpose:
        db = db.T
    db.to_pickle(file.split('.xl')[0] + '.pkl')
def update_databases(*, path=None, transpose=True):
    if path:
        one(path, transpose)
    else:
        pth = os.path.join(
            os.path.dirname(os.path.realpath(__file__)), 'data_tables')
        for file in _glob.glob(os.path.join(pth, '*.xlsx')):
            one(file, transpose)
'''

PACKAGE = '''
def package_results(name_feature='LHS', path='E:\\\\Sim_results\\\\\\\\',
                    move_to='finished', ndate_chars=20):
    seps = ('\\\\', '\\\\\\\\', '/', '//', '////')
    src = path if path[-1] in seps else path + os.sep
    dst = move_to if move_to[-1] in seps else move_to + os.sep
    rel = not os.path.isabs(dst)
    h5 = _glob.glob('{0}*{1}*.h5'.format(src, name_feature))
    reports = _glob.glob('{0}*{1}*_REPORT.csv'.format(src, name_feature))
    logs = _glob.glob('{0}*{1}*.log'.format(src, name_feature))
    unresolved = []
    for fl in h5:
        base = fl.split('.h5')[0]
        report = base + '_REPORT.csv'
        bcs = base + '_BCs.csv'
        ident = name_feature + os.path.basename(base).split(name_feature)[1]
        log = [x for x in logs if ident in x]
        log = log[0] if len(log) == 1 else False
        if log:
            prefix = os.path.basename(log).split('.')[0]
        else:
            prefix = os.path.basename(base)[ndate_chars:]
        folder = name_feature + prefix.split(name_feature)[1]
        if report not in reports:
            unresolved.append(base)
            continue
        if os.path.isfile(base + '.h5_tmp'):
            continue
        if rel:
            to = os.path.abspath('{0}{1}{2}'.format(src, dst, folder))
        else:
            to = os.path.abspath('{0}{1}'.format(dst, folder))
        tofl = os.path.join(to, '{0}{1}')
        if os.path.exists(to):
            continue
        os.makedirs(to)
        _shutil.move(fl, tofl.format(prefix, '.h5'))
        _shutil.move(report, tofl.format(prefix, '_REPORT.csv'))
        try:
            _shutil.move(bcs, tofl.format(prefix, '_BCs.csv'))
        except BaseException as e:
            pass
        if log:
            _shutil.move(log, to)
    return {'unresolved': unresolved, 'pending': _glob.glob(
        '{0}*{1}*.h5_tmp'.format(src, name_feature))}
'''
U = 'utility_functions:'


def _ret(ctx, name, text, trace=(), what=('exc', 'ret'), recv=(), **o):
    R = ctx.run(U + name, **o)
    S = ctx.spec(text, like=R, **o)
    ctx.same(R, S, list(what))
    if trace:
        ctx.trace(R, S, list(trace), with_recv=recv)


def load(ctx):
    _ret(ctx, 'load_sim_results', LOAD, ['pandas.HDFStore'])
    _ret(ctx, 'load_failed_results', FAILED)


def byname(ctx):
    _ret(ctx, 'load_results_by_name', BYNAME,
         no_inline=['load_sim_results'])


def package(ctx):
    _ret(ctx, 'package_results', PACKAGE, ['shutil.move', 'os.makedirs'])


def databases(ctx):
    _ret(ctx, 'database_import', DB)
    _ret(ctx, 'update_databases', UPDATE, ['to_pickle'], ['exc'],
         recv=['to_pickle'])


def pipes(ctx):
    _ret(ctx, 'interp_pipe_specs', INTERP)
    _ret(ctx, 'adjust_pipes', ADJUST, no_inline=['interp_pipe_specs'])


PARTS = [('load', load), ('by name', byname), ('package', package),
         ('databases', databases), ('pipes', pipes)]
