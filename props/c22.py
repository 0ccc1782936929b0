"""C22 boundary conditions are applied where and when they were given"""

LEVEL = 'other'
RULE = ('gated value-graph equality of registration, view analysis of the '
        'memory a time series drives, and guards of the given data')
ASSUMPTIONS = ['numpy basic slices are views',
               'pandas index and NaN predicates are uninterpreted']
FLOOR = 24

ASSIGN = '''
def assign_boundary_cond(self, time_series, open_port=None, part=None,
                         control=None, variable_name=None, array_index=None):
    ts = time_series
    assert isinstance(ts, (pd.Series, pd.DataFrame))
    assert isinstance(ts.index, pd.DatetimeIndex)
    assert isinstance(ts.index.values, np.ndarray)
    assert (getattr(ts.index, 'freq', None) is not None
            or getattr(ts.index, 'inferred_freq', None) is not None)
    assert ts.index.values.dtype == 'datetime64[ns]'
    if self._disksaving_set:
        if self._SimEnv__infer_start_date:
            self._disk_store['start_date'] = ts.index[0]
            self._disk_store['curr_step_start_date'] = ts.index[0]
        else:
            assert ts.index[0] == self._disk_store['start_date']
    assert not np.isnan(ts).any()
    t = ts.index.values
    if self._dyn_BC_timevec.shape != (0,):
        assert self._dyn_BC_timevec.shape == t.shape
        assert np.all(self._dyn_BC_timevec == t)
    else:
        self._SimEnv__BC_timedelta = (t[1].item() - t[0].item()) / 1e9
        assert self._SimEnv__BC_timedelta * ts.index.size > self.timeframe
        self._dyn_BC_timevec = t.astype('datetime64[s]')
        self._SimEnv__last_step_t_idx = 0
    if open_port is not None and part is None and control is None:
        assert open_port in self.boundary_conditions
        pid = self.boundary_conditions[open_port]['port_id']
        view = self.ports_all[pid:pid + 1]
    elif open_port is None and part is not None and control is None:
        assert part in self.parts
        p = self.parts[part]
        assert hasattr(p, variable_name)
        if not isinstance(getattr(p, variable_name), np.ndarray):
            setattr(p, variable_name, np.array([getattr(p, variable_name)]))
        assert isinstance(array_index, int)
        assert array_index < getattr(p, variable_name).shape[0]
        view = getattr(p, variable_name)[array_index:array_index + 1]
    elif open_port is None and part is None and control is not None:
        assert control in self.ctrls
        c = self.ctrls[control]
        assert hasattr(c, 'sp')
        if not isinstance(c.sp, np.ndarray):
            c.sp = np.array([c.sp])
        view = c.sp[0:1]
    else:
        raise ValueError
    self._dyn_BC += ((view, ts.values),)
'''


def assign(ctx):
    R = ctx.run('simenv:SimEnv.assign_boundary_cond')
    S = ctx.spec(ASSIGN, like=R)
    ctx.same_state(R, S)
    ctx.raises_when(R, S)


OPEN = '''
def _add_open_port(self, *, name, constant, temperature):
    assert isinstance(name, str) and name[0:3] == 'BC_'
    assert name not in self.ports
    assert isinstance(constant, bool)
    if not constant:
        assert isinstance(temperature, (pd.Series, pd.DataFrame))
        T = 25.0
    else:
        T = temperature
    assert isinstance(T, (int, float))
    T = float(T)
    self.ports['BoundaryCondition;' + name] = np.array([T])
    self._port_mapping[name] = ('BoundaryCondition', name, None)
    self.num_ports += 1
    self.ports_all = np.append(self.ports_all, 0.0)
    self.plinks_arr = np.append(self.plinks_arr, 0)
    self.ports_all[self.num_ports - 1] = T
    if constant:
        self.boundary_conditions[name] = {
            'type': 'open_port', 'condition': 'constant', 'value': T,
            'port_id': self.num_ports - 1}
    else:
        self.boundary_conditions[name] = {
            'type': 'open_port', 'condition': 'dynamic',
            'value': temperature, 'port_id': self.num_ports - 1}
'''
OPEN2 = '''
def add_open_port(self, name, constant, temperature):
    if 'add_open_port' not in self._SimEnv__postpone:
        self._SimEnv__postpone['add_open_port'] = {}
    self._check_isadded(part=name, kind='open_port')
    assert not np.isnan(temperature).any()
    assert isinstance(temperature, (int, float, np.ndarray, pd.Series,
                                    pd.DataFrame))
    self._SimEnv__postpone['add_open_port'][name] = _partial(
        self._add_open_port, name=name, constant=constant,
        temperature=temperature)
'''
INIT = '''
def _initialize_dynamic_BC(self):
    for dbc in self._dyn_BC:
        dbc[0][0] = dbc[1][0]
'''
AMB = '''
def _chk_amb_temp(self, **K):
    assert 'T_amb' in K
    assert isinstance(K['T_amb'], (int, float))
    assert K['T_amb'] > -273.15
    self._T_amb = np.array([float(K['T_amb'])])
'''


def opened(ctx):
    R = ctx.run('simenv:SimEnv._add_open_port')
    S = ctx.spec(OPEN, like=R)
    ctx.same_state(R, S)
    ctx.raises_when(R, S)
    o = dict(opaque=['_check_isadded', '_add_open_port'])
    R = ctx.run('simenv:SimEnv.add_open_port', **o)
    S = ctx.spec(OPEN2, like=R, **o)
    ctx.same_state(R, S)
    ctx.trace(R, S, ['_check_isadded'])
    ctx.raises_when(R, S)


def start(ctx):
    from sa import vg
    R = ctx.run('simenv:SimEnv._initialize_dynamic_BC')
    S = ctx.spec(INIT, like=R)
    ctx.same_state(R, S)
    R = ctx.run('simenv:SimEnv._chk_amb_temp')
    S = ctx.spec(AMB, like=R)
    ctx.same_state(R, S)
    ctx.raises_when(R, S)
    ctx.no_raise(R, vg.not_(S.st.exc))


# a series given for an open port is assigned to it once the ports exist
LATER = '''
def f(self, ts):
    self._SimEnv__postpone = {{}}
    self._add_open_port(name='BC_x', constant=False, temperature=ts)
    {}
'''


def later(ctx):
    from sa import vg
    o = dict(opaque=['assign_boundary_cond'])
    R = ctx.drive('simenv:SimEnv', LATER.format(
        "self._SimEnv__postpone['dyn_BC']['BC_x']()"), **o)
    S = ctx.drive('simenv:SimEnv', LATER.format(
        "self.assign_boundary_cond(time_series=ts, open_port='BC_x')"), **o)
    ctx.trace(R, S, ['assign_boundary_cond'], label='a series given for an '
              'open port', assume=vg.not_(S.st.exc))


# what a series drives is the very memory of the target
DRIVE = {
    'an open port': ('''
def f(self, ts):
    self._dyn_BC = ()
    self.assign_boundary_cond(ts, open_port='BC_x')
    v = self._dyn_BC[0][0]
''', "self.ports_all"),
    'a variable of a part': ('''
def f(self, ts):
    self._dyn_BC = ()
    self.assign_boundary_cond(ts, part='p', variable_name='dm',
                              array_index=2)
    v = self._dyn_BC[0][0]
''', "self.parts['p'].dm"),
    'a setpoint': ('''
def f(self, ts):
    self._dyn_BC = ()
    self.assign_boundary_cond(ts, control='c')
    v = self._dyn_BC[0][0]
''', "self.ctrls['c'].sp"),
}


def arrives(ctx):
    from sa import vg
    for what, (text, mem) in DRIVE.items():
        R = ctx.drive('simenv:SimEnv', text)
        ctx.views(R, [('v', mem), ('self._dyn_BC[0][0]', mem)],
                  label='series given for ' + what)
        if mem != 'self.ports_all':
            g = vg.not_(vg.truth(R.pre('isinstance(' + mem +
                                       ', np.ndarray)')))
            ctx.equal('a plain value keeps its value: ' + what,
                      R.get(mem + '[0]'), R.pre(mem), vg.and_(
                          g, vg.not_(R.st.exc)), R.where(mem))


PARTS = [('assign', assign), ('open ports', opened), ('start', start),
         ('later', later), ('arrives', arrives)]
