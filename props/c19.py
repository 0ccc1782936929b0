"""C19 results are stored without loss"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of array enlargement, disk '
        'flush, final assembly and cropping: every row is kept exactly once, '
        'under its own time stamp')
ASSUMPTIONS = ['numpy.append, pandas and the HDF5 store do what their '
               'documentation says']
FLOOR = 40

FREE = '''
def _free_memory(self, array_length=-1):
    if not self.__save_to_disk:
        more = np.zeros(self.__base_num_steps)
        self.time_vec = np.append(self.time_vec, more, axis=0)
        self._sys_trnc_err = np.append(self._sys_trnc_err, more, axis=0)
        self._failed_steps = np.append(self._failed_steps, more, axis=0)
        self._solver_state = np.append(self._solver_state, more, axis=0)
        for part in self.parts.values():
            for n in ('res_dm', 'res', 'res_dQ', 'res_Pel', 'res_Pgas',
                      '_chp_state'):
                old = getattr(part, n, None)
                if old is not None:
                    setattr(part, n, np.append(old, np.zeros(
                        (self.__base_num_steps,) + old.shape[1:]), axis=0))
        self.num_steps = self.time_vec.size - 1
        self._create_diff_inputs()
        self._create_port_updater()
        self._prep_inputs_for_njits()
    else:
        with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
            n = self.stepnum[0]
            idx = self._disk_store['curr_step_start_date'] + pd.to_timedelta(
                self.time_vec[:array_length], unit='s')
            self._total_time_vec = np.append(
                self._total_time_vec, self.time_vec[:array_length], axis=0)
            self._total_sys_trnc_err = np.append(
                self._total_sys_trnc_err, self._sys_trnc_err[:array_length],
                axis=0)
            self._total_failed_steps = np.append(
                self._total_failed_steps, self._failed_steps[:array_length],
                axis=0)
            self._total_solver_state = np.append(
                self._total_solver_state, self._solver_state[:array_length],
                axis=0)
            self.time_vec[0] = self.time_vec[n]
            self._sys_trnc_err[0] = self._sys_trnc_err[n]
            self._failed_steps[0] = self._failed_steps[n]
            self._solver_state[0] = self._solver_state[n]
            self.time_vec[1:] = 0
            self._sys_trnc_err[1:] = 0
            self._failed_steps[1:] = 0
            self._solver_state[1:] = 0
            for part in self.parts:
                p = self.parts[part]
                store.append(part + '/dm', pd.DataFrame(
                    data=p.res_dm[:array_length, ...], index=idx))
                if p.res[:array_length, ...].ndim == 2:
                    store.append(part + '/res', pd.DataFrame(
                        data=p.res[:array_length, ...], index=idx))
                elif p.res[:array_length, ...].ndim == 3:
                    coln = getattr(p, '_res_val_names', None)
                    store.append(part + '/res', pd.DataFrame(
                        data=p.res[:array_length, ...].reshape(
                            -1, np.prod(p.res.shape[1:])),
                        index=idx, columns=coln))
                p.res_dm[0, ...] = p.res_dm[n, ...]
                p.res_dm[1:, ...] = 0.0
                p.res[0, ...] = p.res[n, ...]
                p.res[1:, ...] = 0.0
                if hasattr(p, '_special_free_memory'):
                    p._special_free_memory(
                        disk_store=store, part=part,
                        array_length=array_length, hdf_idx=idx,
                        stepnum=self.stepnum)
            self._total_stepnum += self.stepnum[0]
            self.stepnum[0] = 0
'''


FINAL = '''
def _finalize_sim(self):
    self._check_memory_address()
    if self.__save_to_disk:
        self._free_memory(array_length=self.stepnum[0])
    self.stepnum[0] += self._total_stepnum
    if self.__save_to_disk:
        self._disk_store['store_tmp'] = pd.HDFStore(
            self._disk_store['path_tmp'], mode='r+')
        for part in self.parts:
            p = self.parts[part]
            p.res_dm = np.append(
                self._disk_store['store_tmp'][part + '/dm'].values,
                p.res_dm, axis=0)
            if p.res.ndim == 2:
                p.res = np.append(
                    self._disk_store['store_tmp'][part + '/res'].values,
                    p.res, axis=0)
            elif p.res.ndim == 3:
                p.res = np.append(
                    self._disk_store['store_tmp'][
                        part + '/res'].values.reshape(-1, *p.res.shape[1:]),
                    p.res, axis=0)
            if hasattr(p, '_final_datastore_backcalc'):
                p._final_datastore_backcalc(disk_store=self._disk_store,
                                            part=part)
        self._compress_store()
        self.time_vec = np.append(self._total_time_vec, self.time_vec, axis=0)
        self._sys_trnc_err = np.append(
            self._total_sys_trnc_err, self._sys_trnc_err, axis=0)
        self._failed_steps = np.append(
            self._total_failed_steps, self._failed_steps, axis=0)
        self._solver_state = np.append(
            self._total_solver_state, self._solver_state, axis=0)
    self._crop_results()
    for p in self.parts.values():
        if hasattr(p, '_check_results'):
            p._check_results()
    self.time_step_vec = np.append(
        np.diff(self.time_vec), self.time_vec[-1:] - self.time_vec[-2:-1],
        axis=0)
    if self.__save_to_disk:
        self._disk_store['store'].put(
            'sim_vecs',
            pd.DataFrame(index=self._disk_store_timevec, data={
                'time': self.time_vec, 'timestep': self.time_step_vec,
                'sys_trnc_err': self._sys_trnc_err,
                'failed_steps': self._failed_steps,
                'solver_state': self._solver_state}),
            format='table', complevel=self._disk_store['complevel'],
            complib=self._disk_store['complib'])
        if len(self._disk_store_utility) > 0:
            for k, v in self._disk_store_utility.items():
                v(store=self._disk_store['store'], store_kdws=dict(
                    format='table', complevel=self._disk_store['complevel'],
                    complib=self._disk_store['complib']))
        self._disk_store['store'].close()
    self._sim_postproc_time = _time_.time()
    self._write_report()
'''

CROP = '''
def _crop_results(self):
    n = self.stepnum[0]
    self.time_vec = self.time_vec[:n]
    self._sys_trnc_err = self._sys_trnc_err[:n]
    self._failed_steps = self._failed_steps[:n]
    self._solver_state = self._solver_state[:n]
    for part in self.parts:
        p = self.parts[part]
        p.res_dm = p.res_dm[:n]
        p.res = p.res[:n]
        if hasattr(p, '_special_crop_results'):
            p._special_crop_results(stepnum=n)
'''

SPECIAL = {
    'heated_pipe:HeatedPipe': [('res_dQ', 'heating')],
    'chp_plant:CHPPlant': [('res_dQ', 'heating'), ('res_Pel', 'Pel'),
                           ('res_Pgas', 'Pgas'), ('_chp_state', 'chp_state')]}


def free(ctx):
    names = ['_create_diff_inputs', '_create_port_updater',
             '_prep_inputs_for_njits']
    opts = dict(no_inline=names, alloc=True)
    R = ctx.run('simenv:SimEnv._free_memory', **opts)
    S = ctx.spec(FREE, like=R, **opts)
    ctx.same_state(R, S)
    ctx.trace(R, S, names + ['_special_free_memory'],
              commute=[{'_create_diff_inputs', '_create_port_updater'}])
    ctx.same_calls(R, S, 'append')
    ctx.same_calls(R, S, 'alloc')
    R, S = ctx.model('simenv:SimEnv._free_memory', FREE, TWO, **opts)
    ctx.same_state(R, S)
    ctx.trace(R, S, names + ['_special_free_memory'],
              commute=[{'_create_diff_inputs', '_create_port_updater'}])
    ctx.same_calls(R, S, 'append')


def final(ctx):
    names = ['_check_memory_address', '_free_memory', '_compress_store',
             '_crop_results', '_write_report']
    st = ['stepnum', 'res', 'res_dm', 'time_vec', '_sys_trnc_err',
          '_failed_steps', '_solver_state', '_disk_store', '_total_stepnum']
    eff = {n: {'reads': st} for n in names}
    eff['_free_memory'] = {'reads': st, 'writes': [
        'stepnum', 'time_vec', '_sys_trnc_err', '_failed_steps',
        '_solver_state', '_total_time_vec', '_total_sys_trnc_err',
        '_total_failed_steps', '_total_solver_state'],
        'sets': ['_total_stepnum']}
    eff['_crop_results'] = {'reads': st, 'writes': [
        'time_vec', '_sys_trnc_err', '_failed_steps', '_solver_state']}
    opts = dict(no_inline=names, effects=eff)
    R = ctx.run('simenv:SimEnv._finalize_sim', **opts)
    S = ctx.spec(FINAL, like=R, **opts)
    ctx.same_state(R, S)
    ctx.trace(R, S, names + ['put', 'close', '_final_datastore_backcalc',
                             '_check_results', 'call:'])
    R, S = ctx.model('simenv:SimEnv._finalize_sim', FINAL, TWO, **opts)
    ctx.same_state(R, S)
    ctx.trace(R, S, names + ['put', 'close', '_final_datastore_backcalc',
                             '_check_results', 'call:'])


TWO = '''
self.parts = {'one': self.first, 'two': self.second}
'''


def crop(ctx):
    R = ctx.run('simenv:SimEnv._crop_results')
    S = ctx.spec(CROP, like=R)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['_special_crop_results'])
    R, S = ctx.model('simenv:SimEnv._crop_results', CROP, TWO)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['_special_crop_results'])


def special(ctx):
    for cls, arrs in SPECIAL.items():
        t = 'parts.' + cls
        text = 'def _special_array_init(self, num_steps):\n'
        for a, _ in arrs:
            src = {'res_dQ': '_dQ_heating', 'res_Pel': '_Pel',
                   'res_Pgas': '_Pgas'}.get(a, a)
            # one column for the state, whatever an earlier run left behind
            shape = '(num_steps + 1, 1)' if src == a else \
                '(num_steps + 1,) + self.{}.shape'.format(src)
            text += '    self.{} = np.zeros({})\n'.format(a, shape)
        R = ctx.run(t + '._special_array_init', alloc=True)
        S = ctx.spec(text, like=R, alloc=True)
        ctx.same_state(R, S)
        ctx.same_calls(R, S, 'alloc')
        text = ('def _special_free_memory(self, disk_store, part, '
                'array_length, hdf_idx, stepnum):\n')
        for a, k in arrs:
            text += ("    disk_store.append(part + '/{1}', pd.DataFrame("
                     "data=self.{0}[:array_length, ...], index=hdf_idx))\n"
                     "    self.{0}[0, ...] = self.{0}[stepnum[0], ...]\n"
                     "    self.{0}[1:, ...] = 0.0\n").format(a, k)
        R = ctx.run(t + '._special_free_memory')
        S = ctx.spec(text, like=R)
        ctx.same_state(R, S)
        ctx.same_calls(R, S, 'append')
        text = 'def _final_datastore_backcalc(self, disk_store, part):\n'
        for a, k in arrs:
            text += ("    self.{0} = np.append(disk_store['store_tmp'][part + "
                     "'/{1}'].values, self.{0}, axis=0)\n").format(a, k)
        R = ctx.run(t + '._final_datastore_backcalc')
        S = ctx.spec(text, like=R)
        ctx.same_state(R, S)
        text = 'def _special_crop_results(self, stepnum):\n'
        for a, k in arrs:
            text += '    self.{0} = self.{0}[:stepnum]\n'.format(a)
        R = ctx.run(t + '._special_crop_results')
        S = ctx.spec(text, like=R)
        ctx.same_state(R, S)


PARTS = [('free', free), ('final', final), ('crop', crop),
         ('special', special)]
