"""C30 report and stored data"""

from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of the report, of the '
        'selection and compression of stored results and of their retrieval')
ASSUMPTIONS = ['numpy.unique, numpy.percentile, pandas and the HDF5 store do '
               'what their documentation says']
FLOOR = 40

REPORT = '''
def _write_report(self):
    n = dict(zip(*np.unique(self._solver_state, return_counts=True)))
    for k in (4, 5, 6, 7, 98, 99):
        if k not in n:
            n[k] = 0
    failure = n[98] != 0 or n[99] != 0
    info = {'MultiSim version': __version__,
            'Simulation success': not failure}
    if failure:
        info['Sim. failed at step'] = self.stepnum[0]
        if n[98] != 0:
            info['failure reason'] = 'Invalid value encountered'
        else:
            info['failure reason'] = \\
                'No stable solution with given min. stepsize'
    else:
        info['Sim. solved in n steps'] = self.stepnum[0]
    q = np.percentile(self.time_step_vec, q=[25, 50, 75])
    took = self._sim_end_time - self._sim_start_time
    info.update({
        '\\n': '\\n', 'Solver information': '',
        'Normal steps (including repeated)': n[4],
        'Steps limited to maximum stepsize': n[5],
        'Steps limited to minimum stepsize': n[6],
        'Roundoff error governed step solution (truncation error is 0 or '
        'epsilon)': n[7],
        'Number of repeated steps': self._failed_steps.sum(),
        '': '', 'Stepsize summary': '',
        'Total timeframe in s': self.time_vec.max(),
        'Total timeframe in d': self.time_vec.max() / 86400,
        'Mean stepsize in s': self.time_step_vec.mean(),
        'Median stepsize in s': q[1],
        '25% quartile stepsize in s': q[0],
        '75% quartile stepsize in s': q[2],
        ' ': ' ', 'Misc. information': ' ',
        'Executed file': sys.argv[0],
        'Simulation started at': pd.to_datetime(
            self._sim_start_time, unit='s', utc=True).tz_convert(
                'Europe/Berlin'),
        'Simulation finished at': pd.to_datetime(
            self._sim_end_time, unit='s', utc=True).tz_convert(
                'Europe/Berlin'),
        'Simulation duration in s': took,
        'Simulation duration in h': took / 3600,
        'Postprocessing duration in s':
            self._sim_postproc_time - self._sim_end_time,
        'Steps per second': self.stepnum[0] / took})
    if self.__save_to_disk:
        pd.DataFrame.from_dict(info, orient='index').to_csv(
            self._disk_store['path'].replace('.h5', '_REPORT.csv'),
            header=False, sep=';')
'''

COMPRESS = '''
def _compress_store(self):
    d = self._disk_store
    tmp = d['store_tmp']
    self._disk_store_timevec = tmp[
        list(self.parts.keys())[0] + '/res'].index.copy()
    if d['compress'] or d['resample'] or any(
            sel is not True for sel in self._disk_store_parts.values()):
        d['store'] = pd.HDFStore(d['path'], mode='w',
                                 complevel=d['complevel'],
                                 complib=d['complib'])
        for key in tmp.keys():
            tab = tmp[key]
            part = key.split('/')[1]
            sel = self._disk_store_parts[part]
            if isinstance(sel, bool) and not sel:
                continue
            if isinstance(sel, bool):
                sel = np.s_[:, :]
            elif tab.shape[1] == 1:
                sel = np.s_[:, :]
            elif key.endswith('/dm') and self.parts[part].multiple_flows:
                sel = np.s_[:, :]
            elif isinstance(sel, int):
                sel = np.s_[:, [sel]]
            elif isinstance(sel, (list, tuple)):
                sel = np.s_[:, list(sel)]
            elif isinstance(sel, slice):
                sel = np.s_[:, sel]
            if d['resample']:
                d['store'].put(
                    key, tab.iloc[sel].resample(
                        d['resample_freq']).mean().interpolate(),
                    format='table', complevel=d['complevel'],
                    complib=d['complib'])
            else:
                d['store'].put(key, tab.iloc[sel], format='table',
                               complevel=d['complevel'],
                               complib=d['complib'])
        tmp.close()
        os.remove(d['path_tmp'])
    else:
        tmp.close()
        os.rename(d['path_tmp'], d['path'])
        d['store_tmp'] = pd.HDFStore(d['path'], mode='a')
        d['store'] = d['store_tmp']
'''

RETURN = '''
def return_stored_data(self):
    if not self.__save_to_disk:
        raise ValueError()
    store = self._disk_store['store']
    dfs = {}
    store.open(mode='r')
    for part in self.parts:
        try:
            dfs[part] = {'res': store[part + '/res'].copy(),
                         'dm': store[part + '/dm'].copy()}
            if hasattr(self.parts[part], '_special_return_store'):
                self.parts[part]._special_return_store(
                    disk_store=self._disk_store, dfs=dfs, part=part)
        except KeyError:
            continue
    dfs['sim_vecs'] = store['sim_vecs'].copy()
    meters = {}
    for k in store.keys():
        if 'meters' in k:
            meters[k.split('/')[2]] = store[k].copy()
    if len(meters) > 0:
        dfs['meters'] = meters
    store.close()
    return dfs
'''

ADD = '''
def add_part(self, part, name, store_results=True, **kwargs):
    post = self.__postpone
    if 'add_part' not in post:
        post['add_part'] = {}
        post['init_part'] = {}
    if 'grid_points' in kwargs:
        cells = kwargs['grid_points']
    else:
        cells = 1
        store_results = bool(store_results)
    assert isinstance(store_results, (bool, int, slice, list, tuple))
    if isinstance(store_results, (list, tuple)):
        for cell in store_results:
            assert isinstance(cell, int)
            assert cell < cells
    elif isinstance(store_results, int) and not isinstance(
            store_results, bool):
        assert store_results < cells
    self._disk_store_parts[name] = store_results
    self._check_isadded(part=name, kind='part')
    post['add_part'][name] = _partial(self._add_part, part, name, **kwargs)
    post['init_part'][name] = kwargs
'''


def report(ctx):
    R = ctx.run('simenv:SimEnv._write_report')
    S = ctx.spec(REPORT, like=R)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S)
    ctx.trace(R, S, ['to_csv'], with_recv=['to_csv'])


def compress(ctx):
    R = ctx.run('simenv:SimEnv._compress_store')
    S = ctx.spec(COMPRESS, like=R)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S)
    ctx.trace(R, S, ['put', 'close', 'os.remove', 'os.rename'])


def retrieve(ctx):
    R = ctx.run('simenv:SimEnv.return_stored_data')
    S = ctx.spec(RETURN, like=R)
    ctx.same(R, S, ['exc', 'ret'])
    ctx.same_state(R, S)
    ctx.trace(R, S, assume=vg.not_(R.st.exc), names=['open', 'close', '_special_return_store'])


def select(ctx):
    o = dict(no_inline=['_check_isadded'])
    R = ctx.run('simenv:SimEnv.add_part', **o)
    S = ctx.spec(ADD, like=R, **o)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S)
    ctx.trace(R, S, ['_check_isadded'])


PARTS = [('report', report), ('compress', compress), ('retrieve', retrieve),
         ('select', select)]
