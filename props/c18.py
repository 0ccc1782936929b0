"""C18 the simulation loop"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of the simulation loop, of '
        'the initialisation sequence and of the dynamic boundary conditions')
ASSUMPTIONS = ['the solver and the callees of one loop pass are abstract: '
               'they may read and write any simulation state']
FLOOR = 20

START = '''
def start_sim(self):
    if not self._initialized:
        raise UserWarning()
    if self._disksaving_set and self._disk_store['start_date'] is None:
        raise TypeError()
    self._sim_start_time = _time_.time()
    self.time_sim = 0.0
    self.stepnum[0] = 1
    while self.time_sim < self.timeframe:
        self._update_FlowNet()
        self.solver(self.solve_num_expl, self.solve_num_impl,
                    self.solve_nonnum, self.timestep)
        self._update_control(self.timestep)
        self._update_dyn_BC(self.time_sim, self.timestep)
        self.time_sim += self.timestep
        self.time_vec[self.stepnum[0]] = self.time_sim
        if self.stepnum[0] == self.num_steps:
            if self.time_sim < self.timeframe or self.__save_to_disk:
                self._free_memory()
        self.stepnum[0] += 1
        if self._total_stepnum % 5000 == 0:
            for name, prt in self.parts.items():
                if np.any(np.isnan(prt.T)) or np.any(np.isnan(prt.dm)):
                    self.timeframe = 1e-9
                    self._solver_state[self.stepnum[0] - 1] = 98
                    break
    self._sim_end_time = _time_.time()
    self._finalize_sim()
'''

BC = '''
def _update_dyn_BC(self, time, timestep):
    if self._dyn_BC:
        cells = timestep / self.__BC_timedelta
        pos = self.__last_step_t_idx + cells
        i = int(pos)
        frac = pos - i
        for BC in self._dyn_BC:
            at_end = (1 - frac) * BC[1][i] + frac * BC[1][i + 1]
            if cells <= 1:
                BC[0][0] = at_end
            else:
                BC[0][0] = (
                    BC[1][int(round(self.__last_step_t_idx)):i + 1].mean()
                    * (cells - frac) + at_end * frac) / cells
        self.__last_step_t_idx = pos
'''

CTRL = '''
def _update_control(self, timestep):
    for i in range(len(self.ctrl_l)):
        self.ctrl_l[i].ctrl(timestep)
'''

INIT = '''
def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
    if build_simenv:
        self._build_simenv()
    if reset_simenv:
        self._reset_simenv()
    self._initialize_arrays(
        max_steps_b4_save_to_disk=self._save_every_n_steps)
    self._create_diff_inputs()
    self._prep_inputs_for_njits()
    self._initialized = True
'''

RESET = '''
def _reset_simenv(self):
    self.set_timeframe(timeframe=self.timeframe,
                       adaptive_steps=self.adaptive_steps,
                       **self.__bkp_kwargs_timeframe)
    for part in self.parts.values():
        part._reset_to_init_cond()
    for ctrl in self.ctrls.values():
        ctrl._reset_to_init_cond()
    self._initialize_dynamic_BC()
    self._new_step = 1.0
    self.timestep = 1.0
'''

CALLEES = ['_update_FlowNet', 'solver', '_update_control', '_update_dyn_BC',
           '_free_memory', '_finalize_sim']


STATE = ['timestep', 'stepnum', 'time_vec', '_total_stepnum', 'num_steps',
         '_solver_state', 'timeframe', 'time_sim', '_sys_trnc_err']


def loop(ctx):
    eff = {c: {'reads': STATE, 'writes': ['ports_all']} for c in CALLEES}
    eff['solver'] = {'reads': STATE, 'writes': ['_solver_state'],
                     'sets': ['timestep']}
    eff['_free_memory'] = {'reads': STATE, 'writes': ['stepnum', 'time_vec'],
                           'sets': ['num_steps', '_total_stepnum']}
    opts = dict(no_inline=CALLEES, effects=eff)
    R = ctx.run('simenv:SimEnv.start_sim', **opts)
    S = ctx.spec(START, like=R, **opts)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S)
    ctx.trace(R, S, CALLEES)


def bc(ctx):
    R = ctx.run('simenv:SimEnv._update_dyn_BC')
    S = ctx.spec(BC, like=R)
    ctx.same_state(R, S)


def control(ctx):
    R = ctx.run('simenv:SimEnv._update_control')
    S = ctx.spec(CTRL, like=R)
    ctx.trace(R, S, ['ctrl'])


def init(ctx):
    names = ['_build_simenv', '_reset_simenv', '_initialize_arrays',
             '_create_diff_inputs', '_prep_inputs_for_njits',
             '_initialize_dynamic_BC', 'set_timeframe', '_reset_to_init_cond']
    for f, text in (('initialize_sim', INIT), ('_reset_simenv', RESET)):
        R = ctx.run('simenv:SimEnv.' + f, no_inline=names)
        S = ctx.spec(text, like=R, no_inline=names)
        ctx.same_state(R, S)
        ctx.trace(R, S, names)


PARTS = [('loop', loop), ('bc', bc), ('control', control), ('init', init)]
