"""C20 settings of a simulation are validated and applied"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of the state after each set-up call, and '
        'equality of the rejected inputs, with the documented requirement')
ASSUMPTIONS = ['pandas and os functions do what their documentation says']
FLOOR = 40

FRAME = '''
def num(d, k, lo, hi, default):
    if k not in d:
        return default
    assert isinstance(d[k], (int, float)) and lo < d[k]
    if hi is not None:
        assert d[k] < hi
    return float(d[k])

def frac(d, k, default):
    if k not in d:
        return default
    assert isinstance(d[k], float) and 0 < d[k] < 1
    return d[k]

def flag(d, k, default):
    if k not in d:
        return default
    assert isinstance(d[k], bool)
    return d[k]

def set_timeframe(self, *, timeframe, adaptive_steps, **kwargs):
    assert isinstance(timeframe, (float, int)) and timeframe > 0
    assert isinstance(adaptive_steps, bool)
    self.timeframe = float(timeframe)
    self.adaptive_steps = adaptive_steps
    if adaptive_steps:
        self.__rtol = frac(kwargs, 'rtol', 1e-3)
        self.__atol = frac(kwargs, 'atol', 1e-6)
        self.__max_stepsize = num(kwargs, 'max_stepsize', 1e-8, None, 100.)
        self.__min_stepsize = num(kwargs, 'min_stepsize', 0,
                                  self.__max_stepsize, 1e-8)
        self._max_factor = np.array([num(kwargs, 'max_factor', 1, None, 2.)])
        self.__min_factor = frac(kwargs, 'min_factor', .2)
        self._check_vN = flag(kwargs, 'check_vN', True)
        self._max_speed = flag(kwargs, 'max_speed', False)
        self.__safety = frac(kwargs, 'safety_factor', .9)
        self._fctr_rec_stps = num(kwargs, 'factor_recovery', 0, None, 50.)
        self._steps_since_fail = 0
        self._new_step = 1.
        self.timestep = 1.
    else:
        assert 'timestep' in kwargs
        assert isinstance(kwargs['timestep'], (float, int))
        assert kwargs['timestep'] > 0
        self.timestep = float(kwargs['timestep'])
        self._max_speed = False
        self._check_vN = False
    self.stepnum[0] = 0
    self._step_stable = np.array([True])
    self.num_steps = int(np.ceil(timeframe / self.timestep))
    self.__bkp_kwargs_timeframe = kwargs
    self._timeframe_set = True
'''

SOLVER = '''
def set_solver(self, solver='heun', **kwargs):
    assert self._timeframe_set
    assert solver == 'heun'
    assert 'allow_implicit' in kwargs
    assert isinstance(kwargs['allow_implicit'], bool)
    self._solvers = ('_heun', '_heun_adaptive', '_rk4',
                     '_euler_expl_classic', '_euler_expl_modified',
                     '_midpoint')
    if self.adaptive_steps:
        self.__order = 2
        self.solver = self._heun_adaptive
    else:
        self.solver = self._heun
    self._allow_implicit = kwargs['allow_implicit']
    self._solver_set = True
'''

DISK = '''
def set_disksaving(self, save=True, save_every_n_steps=100000, sim_name=None,
                   path='.\\\\results\\\\\\\\', start_date='2019-09-01 00:00:00',
                   resample_final=True, resample_freq='1s',
                   create_new_folder=True, overwrite=False, complevel=9,
                   complib='zlib'):
    self.__save_to_disk = save
    d = {}
    self._disk_store = d
    self.__infer_start_date = start_date == 'infer'
    if start_date == 'infer':
        d['start_date'] = None
    else:
        d['start_date'] = pd.to_datetime(start_date)
        d['curr_step_start_date'] = d['start_date']
    if not save:
        self._disksaving_set = True
        self._save_every_n_steps = 1e6
        d['resample'] = False
        return
    if sim_name is None:
        sim_name = self._simenv_name
    assert isinstance(resample_final, bool)
    if resample_final:
        try:
            pd.Timedelta(resample_freq)
        except ValueError:
            raise ValueError()
    self._save_every_n_steps = int(save_every_n_steps)
    now = pd.datetime.now()
    d['path'] = os.path.abspath('{path}{iso_date}_{name}.{typ}'.format(
        path=path,
        iso_date=now.isoformat(timespec='seconds').replace(':', '-'),
        name=sim_name, typ='h5'))
    d['resample'] = resample_final
    d['resample_freq'] = resample_freq
    d['compress'] = complevel > 0
    d['complevel'] = complevel
    d['complib'] = complib
    if not os.path.isdir(path):
        if not create_new_folder:
            raise FileNotFoundError()
        os.makedirs(path)
    if os.path.exists(d['path']) and not overwrite:
        raise FileExistsError()
    d['path_tmp'] = d['path'] + '_tmp'
    with pd.HDFStore(d['path_tmp'], mode='w', complevel=0) as store:
        d['store_tmp'] = store
    self._disksaving_set = True
'''

BUILD = '''
def _build_simenv(self):
    self._call_postponed()
    for part in self.parts.values():
        if not part.initialized:
            raise UserWarning()
    for part in self.parts:
        if self.parts[part].control_req and not self.parts[part].ctrl_defined:
            raise UserWarning()
    for ctrl in self.ctrl_l:
        if not ctrl.initialized:
            raise UserWarning()
    assert self._solver_set
    assert self._timeframe_set
    assert self._disksaving_set
    self._get_topology()
'''

ISADDED = '''
def _check_isadded(self, *, part, kind):
    assert kind in ('part', 'control', 'open_port')
    if kind == 'part':
        assert part not in self.__postpone['add_part']
    elif kind == 'control':
        assert part not in self.__postpone['add_ctrl']
    else:
        assert part not in self.__postpone['add_open_port']
'''

ISPART = '''
def _check_ispart(self, *, part):
    assert part in self.parts
'''

ISPORT = '''
def _check_isport(self, *, part, port):
    self._check_ispart(part=part)
    assert port in self.parts[part].port_names
'''

ISRANGE = '''
def _check_isinrange(self, *, part, index, target_array=None):
    self._check_ispart(part=part)
    assert target_array in ('temperature', 'massflow', 'ports')
    assert isinstance(index, (int, np.integer))
    if target_array == 'temperature':
        assert index < self.parts[part].T.size
    elif target_array == 'massflow':
        assert index < self.parts[part]._dm_io.size
    else:
        assert index < self.parts[part]._T_port.size
'''


def setup(ctx, name, text, names=(), **o):
    R = ctx.run('simenv:SimEnv.' + name, **o)
    S = ctx.spec(text, like=R, **o)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))
    if names:
        ctx.trace(R, S, names, assume=vg.not_(R.st.exc))
    return R, S


NEW = """
def __init__(self, suppress_printing=False):
    # nothing set, nothing added, nothing computed
    self._initialized = self._solver_set = False
    self._timeframe_set = self._disksaving_set = False
    self.suppress_printing = suppress_printing
    self.parts = {}
    self.ports = {}
    self.ports_all = np.array(())
    self._port_mapping = {}
    self.port_links = {}
    self.boundary_conditions = {}
    self._dyn_BC = ()
    self._dyn_BC_timevec = np.array([])
    self.solve_num_expl = {}
    self.solve_num_impl = {}
    self.solve_num_njit = {}
    self.solve_nonnum = _odict()
    self.sup_net = _odict()
    self.sub_net = _odict()
    self.flow_net = ()
    self._hydr_comps = set()
    self.ctrl_l = []
    self.ctrls = {}
    self._actuators = []
    self.stepnum = np.zeros(1, dtype=np.int32)
    self._total_stepnum = 0
    self.num_parts = self.num_ports = self._num_conn_ports = 0
    self.num_ctrls = 0
    self._num_cells_tot_nmrc = self._num_cells_tot_nnmrc = 0
    self._num_cells_tot_nmrc_expl = self._num_cells_tot_nmrc_impl = 0
    self.time_vec = np.array([])
    self._total_time_vec = np.array([])
    self._vN_max_step = np.array([np.inf])
    self.sensors = []
    self.dm_warn = True
    self.__postpone = {}
    self._disk_store_parts = {}
    self._disk_store_utility = {}
    self._tiny = 1e-30
"""
STARTS = [x.split('self.')[1].split(' ')[0]
          for l in NEW.splitlines() for x in l.split(' = ')
          if x.strip().startswith('self.')]


def new(ctx):
    """a new environment starts empty"""
    R = ctx.run('simenv:SimEnv.__init__')
    S = ctx.spec(NEW, like=R)
    ctx.same(R, S, ['self.' + n for n in STARTS])


def frame(ctx):
    setup(ctx, 'set_timeframe', FRAME)


def solver(ctx):
    R = ctx.run('simenv:SimEnv.set_solver')
    S = ctx.spec(SOLVER, like=R)
    ctx.raises_when(R, S, R.label + ': other solvers')
    heun = dict(solver=vg.leaf('s', 'heun'))
    R = ctx.run('simenv:SimEnv.set_solver', args=heun)
    S = ctx.spec(SOLVER, like=R, args=heun)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))


def disk(ctx):
    setup(ctx, 'set_disksaving', DISK, ['os.makedirs'])


def build(ctx):
    setup(ctx, '_build_simenv', BUILD, ['_call_postponed', '_get_topology'],
          no_inline=['_call_postponed', '_get_topology'])


def checks(ctx):
    for n, t in (('_check_isadded', ISADDED), ('_check_ispart', ISPART),
                 ('_check_isport', ISPORT), ('_check_isinrange', ISRANGE)):
        o = {} if n == '_check_ispart' else dict(no_inline=['_check_ispart'])
        setup(ctx, n, t, [] if n == '_check_ispart' else ['_check_ispart'],
              **o)


PARTS = [('new', new), ('frame', frame), ('solver', solver), ('disk', disk),
         ('build', build), ('checks', checks)]
