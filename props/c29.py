"""C29 actuators start in the given state and control what they drive"""

LEVEL = 'other'
RULE = ('gated value-graph equality of the start state and limits of '
        'actuators, guards of the given values, and view analysis of the '
        'controlled arrays')
ASSUMPTIONS = ['numpy basic slices are views',
               'the tables of materials and pipe sizes are taken as given']
FLOOR = 60


def s(xs):
    return ['self.' + x for x in xs]


ACT = '''
def _initialize_actuator(self, variable_name='dm', **K):
    if 'ctrl_required' not in K or K['ctrl_required'] is True:
        assert 'lower_limit' in K and 'upper_limit' in K
        assert isinstance(K['lower_limit'], (int, float))
        assert isinstance(K['upper_limit'], (int, float))
        self._lims = np.array([K['lower_limit'], K['upper_limit']])
        self._llim = K['lower_limit']
        self._ulim = K['upper_limit']
    elif K['ctrl_required'] is False:
        assert 'const_val' in K or 'time_series' in K
        assert not ('const_val' in K and 'time_series' in K)
        if 'const_val' in K:
            assert isinstance(K['const_val'], (int, float))
            self._actuator_CV[0] = K['const_val']
        elif 'time_series' in K:
            ts = K['time_series']
            assert isinstance(ts, (pd.Series, pd.DataFrame))
            assert isinstance(ts.index, pd.DatetimeIndex)
            assert isinstance(ts.index.values, np.ndarray)
            assert ts.index.values.dtype == 'datetime64[ns]'
            self._models.assign_boundary_cond(
                time_series=ts, open_port=None, part=self.name,
                variable_name=variable_name, array_index=0)
        self.control_req = False
        self.ctrl_defined = True
'''


def actuator(ctx):
    o = dict(opaque=['assign_boundary_cond'])
    R = ctx.run('simenv:SimEnv._initialize_actuator', **o)
    S = ctx.spec(ACT, like=R, **o)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['assign_boundary_cond'])
    ctx.raises_when(R, S)


PUMP_ = '''
def __init__(self, name, master_cls, **K):
    super().__init__(name, master_cls, **K, constr_type='PipeWithPump')
    self.is_actuator = True
    self._actuator_CV = self.dm[:]
    self._unit = '[kg/s]'
    self.control_req = True
    self.actuator_special = False
    self.ctrl_defined = False
    self._flow_net_parent = True
    self._diff_fully_njit = False
'''
PUMP_INIT = '''
def init_part(self, *, start_massflow, **K):
    super().init_part(**K)
    assert isinstance(start_massflow, (int, float)) and start_massflow >= 0
    self.dm[0] = start_massflow
    self._initialize_actuator(**K)
    if 'ctrl_required' not in K or K['ctrl_required']:
        assert 'maximum_flow' in K
        assert isinstance(K['maximum_flow'], (int, float))
        self._flow_at_max_speed = K['maximum_flow']
'''
FLG = ['is_actuator', '_unit', 'control_req', 'actuator_special',
       'ctrl_defined', '_flow_net_parent', '_diff_fully_njit',
       '_actuator_CV', 'dm']


def pipe_pump(ctx):
    t = 'parts.pipe_with_pump:PipeWithPump.'
    o = dict(no_inline=['__init__'])
    R = ctx.run(t + '__init__', **o)
    S = ctx.spec(PUMP_, like=R, **o)
    ctx.same(R, S, s(FLG))
    ctx.trace(R, S, ['__init__'], with_args=False)
    ctx.views(R, [('self._actuator_CV', 'self.dm')])
    o = dict(opaque=['init_part', '_initialize_actuator'])
    R = ctx.run(t + 'init_part', **o)
    S = ctx.spec(PUMP_INIT, like=R, **o)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['init_part', '_initialize_actuator'])
    ctx.raises_when(R, S)


VALVE = '''
def __init__(self, name, master_cls, **K):
    super().__init__(name, master_cls, **K, constr_type='PipeWith3wValve')
    self.dm = np.zeros_like(self.T)
    self._dm_top = np.zeros_like(self.T)
    self._dm_bot = np.zeros_like(self.T)
    self.dm_char = ('in', 'in')
    assert 'valve_location' in K
    assert isinstance(K['valve_location'], int)
    assert 0 <= K['valve_location'] < self.num_gp
    self._valve_B_loc = K['valve_location']
    K['new_ports'] = {'B': [K['valve_location'], 'index']}
    self.can_add_ports = True
    self._add_ports(**K)
    self.can_add_ports = False
    self.port_names = ('A', 'B', 'AB')
    self.dm_char = ('in', 'in', 'in')
    self.pf_arr = np.array([0.5, 0.5, 1])
    self.port_factors = {'A': self.pf_arr[0:1], 'B': self.pf_arr[1:2],
                         'AB': self.pf_arr[2:3]}
    own = list(self.port_names)
    for i in range(self.port_num):
        own[i] = self.name + ';' + own[i]
    self._own_ports = tuple(own)
    self.break_topology = True
    self._cnt_open_prts = self.port_num
    self.affect_dm = True
    self.dm_invariant = False
    self.is_actuator = True
    self._actuator_CV = self.pf_arr[:]
    self._unit = '[%]'
    self.control_req = True
    self.actuator_special = True
    self.ctrl_defined = False
    self._diff_fully_njit = False
'''
VALVE_INIT = '''
def init_part(self, start_portA_opening, **K):
    super().init_part(**K)
    assert isinstance(start_portA_opening, (int, float))
    assert 0 <= start_portA_opening <= 1
    self.pf_arr[0] = start_portA_opening
    self.pf_arr[1] = 1 - start_portA_opening
    self._initialize_actuator(**K)
    self._actuator_CV[1] = 1 - self._actuator_CV[0]
'''


def pipe_valve(ctx):
    t = 'parts.pipe_with_valve:PipeWith3wValve.'
    o = dict(opaque=['__init__', '_add_ports'])
    R = ctx.run(t + '__init__', **o)
    S = ctx.spec(VALVE, like=R, **o)
    ctx.same(R, S, s([f for f in FLG if f != '_flow_net_parent'] + [
        '_dm_top', '_dm_bot', 'dm_char', '_valve_B_loc', 'can_add_ports',
        'port_names', 'pf_arr', '_own_ports', 'break_topology',
        '_cnt_open_prts', 'affect_dm', 'dm_invariant',
        'port_factors["A"]', 'port_factors["B"]', 'port_factors["AB"]']))
    ctx.trace(R, S, ['__init__', '_add_ports'], with_args=False)
    ctx.same_calls(R, S, '_add_ports')
    ctx.views(R, [('self._actuator_CV', 'self.pf_arr'),
                  ('self.port_factors["A"]', 'self.pf_arr'),
                  ('self.port_factors["B"]', 'self.pf_arr'),
                  ('self.port_factors["AB"]', 'self.pf_arr')])
    ctx.raises_when(R, S)
    o = dict(opaque=['init_part', '_initialize_actuator'])
    R = ctx.run(t + 'init_part', **o)
    S = ctx.spec(VALVE_INIT, like=R, **o)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['init_part', '_initialize_actuator'])
    ctx.raises_when(R, S)


# the opening of the two ports always adds up to one, also for a constant
# opening given by the user
SHARE = '''
def opened(self, start, **K):
    self.pf_arr = np.array([0.5, 0.5, 1.0])
    self._actuator_CV = self.pf_arr[:]
    self.init_part(start_portA_opening=start, **K)
'''


def shares(ctx):
    from sa import vg
    o = dict(opaque=['_print_arg_errs', '_get_specs_n_props',
                     '_chk_amb_temp', 'assign_boundary_cond'])
    for t, text in (('parts.pipe_with_valve:PipeWith3wValve', SHARE),
                    ('parts.mixingvalve:MixingValve', SHARE.replace(
                        'start_portA_opening', 'port_A_init'))):
        R = ctx.drive(t, text, **o)
        ctx.equal(R.label + ': openings add up to one',
                  R.get('self.pf_arr[0] + self.pf_arr[1]'), R.get('1'),
                  vg.not_(R.st.exc), R.where('self.pf_arr'))


NNUM = '''
    self._models = master_cls
    self.name = name
    self.part_id = master_cls.num_parts - 1
    self._tiny = master_cls._tiny
    n = N
    self.num_gp = n
    self.port_num = n
    self.T = np.zeros(n)
    self._T_init = np.zeros(n)
    self._T_port = np.zeros(n)
    self._port_own_idx = np.array(IDX)
    self._solved_ports = []
    self.res_dm = np.zeros((2, n))
    self.solve_numeric = False
    self.collapse_arrays = False
    self.hydr_comp = False
    self._models._hydr_comps.add(name)
    self._cnt_open_prts = n
    self._port_heatcond = True
    self.multiple_flows = False
    self._process_flows = np.array([True])
    self.enlarged_memview = False
    self.initialized = False
    self.info_topology = dict()
    self._diff_fully_njit = False
    own = list(self.port_names)
    for i in range(n):
        own[i] = self.name + ';' + own[i]
    self._own_ports = tuple(own)
    self._dm_port = self.dm[:]
    self._dm_io = self.dm[:]
'''
NN = ['name', 'part_id', '_tiny', 'num_gp', 'port_num', 'T', '_T_init',
      '_T_port', '_solved_ports', 'solve_numeric',
      'collapse_arrays', 'hydr_comp', '_cnt_open_prts', '_port_heatcond',
      'multiple_flows', '_process_flows', 'enlarged_memview', 'initialized',
      '_own_ports', '_dm_port', '_dm_io', 'dm', 'port_names', 'dm_char',
      'is_actuator', 'control_req', 'actuator_special', 'dm_invariant',
      'affect_dm', '_flow_net_parent', 'break_topology']

SOLO = {
    'parts.pump:Pump': ('''
def __init__(self, name, master_cls, **K):
    self.port_names = ('in', 'out')
    self.dm_char = ('in', 'out')
    self.dm = np.zeros(1)
    self._flow_net_parent = True
    self.break_topology = False
    self.affect_dm = False
    self.dm_invariant = True
    self.is_actuator = True
    self.control_req = True
    self.actuator_special = False
    self.ctrl_defined = False
    self._actuator_CV = self.dm[:]
    self._unit = '[kg/s]'
''', 2, ['ctrl_defined', '_actuator_CV', '_unit', '_diff_fully_njit']),
    'parts.mixingvalve:MixingValve': ('''
def __init__(self, name, master_cls, mix_or_split='mix', **K):
    assert mix_or_split in ('mix', 'split')
    self.kind = mix_or_split
    self.port_names = ('A', 'B', 'AB')
    self.dm_char = (('in', 'in', 'out') if mix_or_split == 'mix'
                    else ('out', 'out', 'in'))
    self.pf_arr = np.array([0.5, 0.5, 1])
    self.port_factors = {'A': self.pf_arr[0:1], 'B': self.pf_arr[1:2],
                         'AB': self.pf_arr[2:3]}
    self.dm = np.zeros(3)
    self._flow_net_parent = False
    self.break_topology = False
    self.affect_dm = True
    self.dm_invariant = False
    self.is_actuator = True
    self.control_req = True
    self.actuator_special = True
    self.ctrl_defined = False
    self._actuator_CV = self.pf_arr[:]
    self._unit = '[%]'
''', 3, ['ctrl_defined', '_actuator_CV', '_unit', 'kind', 'pf_arr',
         '_diff_fully_njit',
         'port_factors["A"]', 'port_factors["B"]', 'port_factors["AB"]']),
    'parts.connector_3w:Connector3w': ('''
def __init__(self, name, master_cls, **K):
    self.port_names = ('A', 'B', 'C')
    self.dm_char = ('in', 'in', 'in')
    self.dm = np.zeros(3)
    self._flow_net_parent = False
    self.break_topology = True
    self.affect_dm = True
    self.dm_invariant = False
    self.is_actuator = False
    self.control_req = False
    self.actuator_special = False
''', 3, []),
}


def solo(ctx):
    for t, (text, n, more) in SOLO.items():
        R = ctx.run(t + '.__init__')
        S = ctx.spec(text + NNUM.replace(' N\n', ' %d\n' % n).replace(
            'IDX', str(tuple(range(n)))), like=R)
        ctx.same(R, S, s(NN + more))
        ctx.same(R, S, ['len(self.T)', 'len(self.dm)',
                        'self.res_dm.shape'])
        ctx.views(R, [('self._dm_io', 'self.dm'),
                      ('self._dm_port', 'self.dm')])
        if '_actuator_CV' in more:
            ctx.views(R, [('self._actuator_CV', 'self.pf_arr' if 'pf_arr'
                           in more else 'self.dm')])
        for i in range(n):
            ctx.same(R, S, ['self._port_own_idx[%d]' % i])
        ctx.trace(R, S, ['add'])
        ctx.raises_when(R, S)


GSP = '''
    key = 'in' if 'in' in self.info_topology else 'all_ports'
    self.grid_spacing = np.full_like(
        self._T_port, self.info_topology[key]['pipe_specs']['d_o'] * 1.1)
    self.initialized = True
'''
SOLO_INIT = {
    'parts.pump:Pump': '''
def init_part(self, *, start_massflow, **K):
    self._get_specs_n_props(**K)
    self.dm[0] = start_massflow
    if 'no_control' not in K or K['no_control'] is False:
        assert 'lower_limit' in K and 'upper_limit' in K
        assert K['lower_limit'] < K['upper_limit']
        self._llim = K['lower_limit']
        self._ulim = K['upper_limit']
    elif K['no_control'] is True:
        if 'dm_const' in K:
            assert isinstance(K['dm_const'], (int, float))
            self.dm[0] = K['dm_const']
        else:
            assert 'time_series' in K or 'dm_given' in K
            if 'time_series' in K:
                ts = K['time_series']
                assert isinstance(ts, (pd.Series, pd.DataFrame))
                assert isinstance(ts.index, pd.DatetimeIndex)
                assert isinstance(ts.index.values, np.ndarray)
                assert ts.index.values.dtype == 'datetime64[ns]'
                self.dm_given = True
                self._models.assign_boundary_cond(
                    time_series=ts, open_port=None, part=self.name,
                    variable_name='dm', array_index=0)
        self.control_req = False
        self.ctrl_defined = True
''' + GSP,
    'parts.mixingvalve:MixingValve': '''
def init_part(self, *, port_A_init, **K):
    self._get_specs_n_props(**K)
    assert 0 <= port_A_init <= 1
    self.pf_arr[0] = port_A_init
    self.pf_arr[1] = 1 - port_A_init
    if 'no_control' not in K or K['no_control'] is False:
        assert 'lower_limit' in K and 'upper_limit' in K
        assert 0 <= K['lower_limit'] < K['upper_limit'] <= 1
        self._llim = K['lower_limit']
        self._ulim = K['upper_limit']
''' + GSP,
    'parts.connector_3w:Connector3w': '''
def init_part(self, *, material, pipe_specs, **K):
    self._get_specs_n_props(material=material, pipe_specs=pipe_specs)
''' + GSP,
}


def solo_init(ctx):
    o = dict(opaque=['_get_specs_n_props', 'assign_boundary_cond'])
    for t, text in SOLO_INIT.items():
        R = ctx.run(t + '.init_part', **o)
        S = ctx.spec(text, like=R, **o)
        ctx.same_state(R, S)
        ctx.trace(R, S, ['_get_specs_n_props', 'assign_boundary_cond'],
                  with_args=False)
        ctx.same_calls(R, S, 'assign_boundary_cond')
        ctx.raises_when(R, S)


PARTS = [('actuator', actuator), ('pipe_pump', pipe_pump),
         ('pipe_valve', pipe_valve), ('shares', shares), ('solo', solo),
         ('solo_init', solo_init)]
