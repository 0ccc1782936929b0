"""C16 adaptive solver step"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of the adaptive step loop: '
        'a step is kept only if it was stable and accurate (or as short as '
        'allowed), every rejected attempt restores the ports and restarts from '
        'the last accepted state')
ASSUMPTIONS = []
FLOOR = 10
T = 'simenv:SimEnv._heun_adaptive'

STEP = '''
def _heun_adaptive(self, solve_num_expl, solve_num_impl, solve_nonnum,
                   old_step):
    h = self._new_step
    n = self.stepnum[0]
    self.__parr_bkp[:] = self.ports_all
    self._step_accepted = False
    self._steps_since_fail += 1
    unstable = 0
    self._vN_max_step[0] = np.inf
    i = 0
    while not self._step_accepted:
        err = 0.0
        self._step_stable[0] = True
        for part in solve_num_expl:
            p = self.parts[part]
            if i == 0:
                p._trnc_err += p.__new_trnc_err
            p.T[:] = p.res[n - 1]
            p._df0[:] = solve_num_expl[part](h)
            p.T[:] = p.T + h * p._df0
            if not self._step_stable[0]:
                self._breaking_part = part
                break
        if self._step_stable[0]:
            for part in solve_num_impl:
                p = self.parts[part]
                prev = p.res[n - 1].ravel().copy()
                p.T[:] = _root(
                    solve_num_impl[part], prev,
                    args=(prev, h / 2, p._input_args),
                    method='hybr').x.reshape(p.T.shape)
            for part in solve_nonnum:
                self.solve_nonnum[part](h)
            _pf._upddate_ports_interm(
                ports_all=self.ports_all, trgt_indices=self._ports_trgt_idx,
                ports_src=self._ports_src_interm, source=0)
            for part in solve_num_expl:
                p = self.parts[part]
                p._df1[:] = solve_num_expl[part](h)
                err, p.__new_trnc_err = _pf._heun_corrector_adapt(
                    res=p.res, T=p.T, df0=p._df0, df1=p._df1,
                    trnc_err_cell_weight=p._trnc_err_cell_weight, _h=h,
                    stepnum=n, rtol=self.__rtol, atol=self.__atol, err=err,
                    new_trnc_err=p.__new_trnc_err)
            for part in solve_num_impl:
                p = self.parts[part]
                prev = p.T.ravel().copy()
                p.res[n] = _root(
                    solve_num_impl[part], prev,
                    args=(prev, h / 2, p._input_args),
                    method='hybr').x.reshape(p.T.shape)
            for part in solve_nonnum:
                self.solve_nonnum[part](h)
            _pf._upddate_ports_result(
                ports_all=self.ports_all, trgt_indices=self._ports_trgt_idx,
                ports_src=self._ports_src_result, stepnum=n,
                src_list=self._ports_src_res_idx)
            rms = (err / self._num_cells_tot_nmrc_expl) ** 0.5
            if 0.0 < rms < 1.0:
                self._step_accepted = True
                self.timestep = h
                h = h * max(1, min(
                    self._max_factor[0],
                    self.__safety * rms ** (-1 / (self.__order + 1)))
                    * (self._steps_since_fail / self._fctr_rec_stps) ** 2)
                if h > self.__max_stepsize:
                    h = self.__max_stepsize
                    self._solver_state[n] = 5
                else:
                    self._solver_state[n] = 4
            elif rms == 0.0:
                self._step_accepted = True
                self.timestep = h
                h = min(h * self._max_factor[0], self.__max_stepsize)
                self._solver_state[n] = 7
            elif h == self.__min_stepsize:
                self._step_accepted = True
                self.timestep = h
                self._solver_state[n] = 6
            else:
                h = max(self.__min_stepsize, h * max(
                    self.__min_factor,
                    self.__safety * rms ** (-1 / (self.__order + 1))))
                self.ports_all[:] = self.__parr_bkp
                self._failed_steps[n] += 1
        else:
            self._step_accepted = False
            unstable += 1
            h = self._vN_max_step[0] * 0.9
            self._failed_steps[n] += 1
            self._steps_since_fail = 0
            self.ports_all[:] = self.__parr_bkp
            if unstable == 100:
                raise ValueError()
        i += 1
    self._new_step = h
    self._sys_trnc_err[n] = rms
'''


EFF = {'reads': ['T', 'res', 'ports_all', '_step_stable', '_vN_max_step',
                 '_ports_src_interm', '_ports_src_result'],
       'writes': ['_step_stable', '_vN_max_step', '_ports_src_interm',
                  '_ports_src_result']}
PORTS = ('_upddate_ports_interm', '_upddate_ports_result')
CALLS = ('_heun_corrector_adapt',) + PORTS


def step(ctx):
    opts = dict(scalars=['_new_step', '__max_stepsize'],
                effects={'call:': EFF})
    R = ctx.run(T, **opts)
    S = ctx.spec(STEP, like=R, **opts)
    ctx.same(R, S, ['self._new_step', 'self.timestep', 'self.ports_all',
                    'self._step_accepted', 'self._solver_state',
                    'self._failed_steps', 'self._sys_trnc_err',
                    'self._steps_since_fail', 'self._breaking_part',
                    'exc'])
    ctx.same_state(R, S)


def order(ctx):
    eff = {'call:': EFF}
    for n in CALLS:
        eff[n] = dict(EFF, writes=['ports_all'])
    opts = dict(scalars=['_new_step', '__max_stepsize'], effects=eff,
                no_inline=CALLS)
    R = ctx.run(T, **opts)
    S = ctx.spec(STEP, like=R, **opts)
    ctx.trace(R, S, ['call:'] + list(CALLS))


PARTS = [('step', step), ('order', order)]
