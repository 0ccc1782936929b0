"""C17 Heun corrector, port exchange, arrays shared between parts"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of the corrector, of the port updates and '
        'of the storage wiring (shared, not copied) against the required '
        'scheme, for every part, port and array')
ASSUMPTIONS = ['scipy.optimize.root is opaque']
FLOOR = 20

CORR = '''
def _heun_corrector_adapt(res, T, df0, df1, trnc_err_cell_weight, _h, stepnum,
                          rtol, atol, err, new_trnc_err):
    new = res[stepnum - 1] + _h * (df0 + df1) / 2
    scale = atol + rtol * np.maximum(res[stepnum - 1], new)
    trnc_err = ((trnc_err_cell_weight * (new - T) / scale) ** 2).sum()
    rms = (trnc_err / T.size) ** 0.5
    res[stepnum] = new
    T[:] = new
    return err + trnc_err, rms
'''

INTERM = '''
def _upddate_ports_interm(ports_all, trgt_indices, ports_src, source=0):
    for i in range(len(ports_src[source])):
        ports_all[trgt_indices[i]] = ports_src[source][i][0]
'''

RESULT = '''
def _upddate_ports_result(ports_all, trgt_indices, ports_src, stepnum,
                          src_list):
    for i in range(len(ports_src)):
        ports_all[trgt_indices[i]] = ports_src[i][
            stepnum * src_list[i][0] + src_list[i][1]]
'''

UPD = '''
def upd_p_arr(ports_all, port_ids, values, _port_own_idx):
    for i in range(_port_own_idx.shape[0]):
        ports_all[port_ids[i]] = values.flat[_port_own_idx[i]]
'''

TOIDX = '''
def _port_values_to_idx(ports_all, port_link_idx, port_own_idx, out):
    for i in range(port_link_idx.size):
        out.flat[port_own_idx[i]] = ports_all[port_link_idx[i]]
'''

TOCONT = '''
def _port_values_to_cont(ports_all, port_link_idx, out):
    for i in range(port_link_idx.size):
        out.flat[i] = ports_all[port_link_idx[i]]
'''

UPDATER = '''
def _create_port_updater(self):
    n = self.num_ports
    interm = [None] * n
    result = [None] * n
    where = [-9999] * n
    target = [-9999] * n
    for part in self.parts.values():
        for i in range(part.port_ids.size):
            pid = part.port_ids[i]
            own = part._port_own_idx[i]
            cell = np.unravel_index(own, part.T.shape)
            target[pid] = pid
            interm[pid] = part.T[(slice(cell[0], cell[0] + 1), *cell[1:])]
            result[pid] = part.res.reshape(-1)
            where[pid] = (part.T.size, own)
    self._ports_src_interm = (tuple([x for x in interm if x is not None]),)
    self._ports_src_result = tuple([x for x in result if x is not None])
    self._ports_src_res_idx = tuple([x for x in where if x != -9999])
    self._ports_trgt_idx = tuple([x for x in target if x != -9999])
'''

INPUTS = '''
def _create_diff_inputs(self):
    for name, part in self.parts.items():
        part._input_args = []
        for arg in part._input_arg_names_sorted:
            part._input_args.append(part.__dict__[arg])
        part._input_args = tuple(part._input_args)
        part._df0 = np.zeros_like(part.T)
        part._df1 = np.zeros_like(part.T)
'''

ARRAYS = '''
def _initialize_arrays(self, *, max_steps_b4_save_to_disk=10000.0):
    self._update_FlowNet()
    self._get_port_connections()
    self._calc_UAwll_port()
    self._msb4save = int(max_steps_b4_save_to_disk)
    self._ram = _psutil.virtual_memory().total
    self._num_max_cells = self._ram * 0.5 / 8
    self._max_steps = self._num_max_cells / self._num_cells_tot_nmrc
    if self.adaptive_steps:
        self.num_steps = int(100 * self.num_steps)
        self.__base_num_steps = self.num_steps + 1
        for part in self.parts:
            if self.parts[part].solve_numeric:
                self.parts[part].__new_trnc_err = 0.0
    if (self.num_steps > self._msb4save or
            self.num_steps > self._max_steps):
        self.num_steps = (self._msb4save if self._max_steps > self._msb4save
                          else int(self._max_steps))
    for part in self.parts.values():
        part.ports_all = self.ports_all
        part._vN_max_step = self._vN_max_step
        part._max_factor = self._max_factor
        part._step_stable = self._step_stable
        part.stepnum = self.stepnum
    for part in self.parts:
        p = self.parts[part]
        if p.solve_numeric:
            p.res = np.zeros((self.num_steps + 1,) + p.T.shape)
            p.res[0] = p._T_init
            p.res_dm = np.zeros((self.num_steps + 1, p.dm.shape[0]))
            p.res_dm[0] = p.dm
            p._update_ports(source='results')
            if hasattr(p, 'res_dQ'):
                p.res_dQ = np.zeros((self.num_steps + 1,)
                                    + p._dQ_heating.shape)
            if hasattr(p, '_special_array_init'):
                p._special_array_init(self.num_steps)
    for part in self.solve_nonnum:
        p = self.parts[part]
        p.res = np.zeros((self.num_steps + 1,) + p.T.shape)
        p.res[0] = p._T_init
        p.res_dm = np.zeros((self.num_steps + 1, p.dm.shape[0]))
        p.solve(self.timestep)
        p._update_ports(source='intermediate', nnum=True)
    self.time_vec = np.zeros(self.num_steps + 1)
    self.time_vec[0] = 0.0
    self._sys_trnc_err = np.zeros_like(self.time_vec)
    self._failed_steps = np.zeros_like(self.time_vec)
    self._solver_state = np.zeros_like(self.time_vec)
    self._total_stepnum = 0
    self._total_time_vec = np.zeros((0,))
    self._total_sys_trnc_err = np.zeros((0,))
    self._total_failed_steps = np.zeros((0,))
    self._total_solver_state = np.zeros((0,))
    self.__parr_bkp = np.zeros_like(self.ports_all)
    self.stepnum[0] = 0
    self._vN_max_step[0] = np.inf
    self._SimEnv__last_step_t_idx = 0
    self._create_port_updater()
'''


def corrector(ctx):
    R = ctx.run('precomp_funs:_heun_corrector_adapt')
    S = ctx.spec(CORR, like=R)
    ctx.same(R, S, ['res', 'T', 'ret', 'exc'])


def ports(ctx):
    for f, text, out in (('_upddate_ports_interm', INTERM, 'ports_all'),
                         ('_upddate_ports_result', RESULT, 'ports_all'),
                         ('upd_p_arr', UPD, 'ports_all'),
                         ('_port_values_to_idx', TOIDX, 'out'),
                         ('_port_values_to_cont', TOCONT, 'out')):
        R = ctx.run('precomp_funs:' + f)
        S = ctx.spec(text, like=R)
        ctx.same(R, S, [out])


def updater(ctx):
    R = ctx.run('simenv:SimEnv._create_port_updater')
    S = ctx.spec(UPDATER, like=R)
    out = ['self._ports_src_interm', 'self._ports_src_result',
           'self._ports_src_res_idx', 'self._ports_trgt_idx']
    ctx.same(R, S, out)


def inputs(ctx):
    R = ctx.run('simenv:SimEnv._create_diff_inputs')
    S = ctx.spec(INPUTS, like=R)
    ctx.same_state(R, S)
    # on two parts: neither stages nor parts share their work arrays
    R, S = ctx.model('simenv:SimEnv._create_diff_inputs', INPUTS, '''
self.parts = {'one': self.first, 'two': self.second}
''')
    ctx.same_state(R, S)
    own = ['self.%s.%s' % (p, a) for p in ('first', 'second')
           for a in ('_df0', '_df1')]
    ctx.apart(R, [(a, b) for a in own for b in own + [
        'self.first.T', 'self.second.T'] if a != b])


def arrays(ctx):
    opts = dict(alloc=True, no_inline=['_update_FlowNet', '_get_port_connections',
                           '_calc_UAwll_port', '_create_port_updater'],
                refs=['ports_all', '_vN_max_step', '_max_factor',
                      '_step_stable', 'stepnum'])
    R = ctx.run('simenv:SimEnv._initialize_arrays', **opts)
    S = ctx.spec(ARRAYS, like=R, **opts)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['_update_FlowNet', '_get_port_connections',
                     '_calc_UAwll_port', '_create_port_updater', 'solve',
                     '_update_ports', '_special_array_init'])
    ctx.same_calls(R, S, 'alloc')


PARTS = [('corrector', corrector), ('ports', ports), ('updater', updater),
         ('inputs', inputs), ('arrays', arrays)]
