"""C09 the CHP plant: switching, ramps, timers and energy balance"""

LEVEL = 'other'
RULE = ('gated value-graph equality of the plant state after one evaluation '
        'with the documented state machine, for every path through it')
ASSUMPTIONS = ['the start-up, shut-down and part load characteristics are '
               'fits: their values are taken as given, their use is decided']
FLOOR = 20

# switching: asked off below the lower modulation bound, else on; a change of
# state is refused while the minimum on/off time runs or the water is too hot
STEP = '''
def clip01(x):
    if x < 0.0:
        return 0.0
    if x > 1.0:
        return 1.0
    return x

def get_diff(self, timestep):
    n = self.stepnum[0]
    new_step = self._process_flows[0]
    if new_step:
        now = self._models.time_vec[n - 1] + timestep
        last = self._chp_state[n - 1]
        was_on = last != 0.0
        wants_on = self._power_modulation[0] >= self._mod_lower
        too_hot = (self._T_chp_in[0] > self._T_chp_in_max
                   or np.any(self.T > self._T_chp_in_max_emrgncy))
        emergency = np.any(self.T > self._T_chp_in_max_emrgncy)
        on = wants_on
        mod = self._power_modulation[0]
        if was_on and not wants_on:
            if now - self._startup_at_time < self._min_on_time:
                on = True
                mod = self._mod_lower
            else:
                self._shutdown_at_time = now
                self._shutdown_in_progress = True
        elif wants_on and not was_on:
            if now - self._shutdown_at_time < self._min_off_time or too_hot:
                on = False
                mod = 0.0
            else:
                self._startup_at_time = now
                self._startup_in_progress = True
        elif on:
            step = self._max_ramp_el * timestep
            if np.abs(last - mod) / timestep > self._max_ramp_el:
                if last - mod <= 0.0:
                    mod = last + step
                else:
                    mod = last - step
        if on and too_hot:
            if (self._dt_time_temp_exc > self._max_temp_exc_time
                    or emergency):
                mod = 0.0
                on = False
                self._shutdown_at_time = now
                self._shutdown_in_progress = True
            else:
                self._dt_time_temp_exc = self._dt_time_temp_exc + timestep
        else:
            self._dt_time_temp_exc = 0.0
        self._power_modulation[0] = mod
        self._chp_on = on
        self._bin_pow_fac = 1.0 if on else 0.0
        self._chp_state[n] = mod if on else 0.0
        if self._shutdown_at_time < self._startup_at_time:
            if self._chp_off_perc < self._shutdown_factor_th:
                # heat left from the last run shortens the start
                self._remaining_heat = np.argmin(np.abs(
                    self._startuptsteps - self._shutdown_factor_th))
                self._shutdown_in_progress = False
                self._shutdown_factor_th = 0.0
            t = self._remaining_heat + now - self._startup_at_time
            self._startup_duration = t
            if self._startup_in_progress:
                th = clip01(_pf.chp_startup_th(t))
                if self._chp_on_perc < th:
                    self._startup_in_progress = False
                    self._remaining_heat = 0.0
                    self._startup_factor_th = 1.0
                    self._startup_factor_el = 1.0
                    self._startup_factor_gas = 1.0
                else:
                    self._startup_factor_th = th
                    self._startup_factor_el = clip01(_pf.chp_startup_el(t))
                    self._startup_factor_gas = clip01(_pf.chp_startup_gas(t))
        else:
            t = now - self._shutdown_at_time
            self._shutdown_duration = t
            if self._shutdown_in_progress:
                left = _pf.chp_shutdown_th(t)
                if left < self._chp_off_perc:
                    self._shutdown_in_progress = False
                    left = 0.0
                self._shutdown_factor_th = left
    m = self._power_modulation[0]
    b = self._bin_pow_fac
    if self._shutdown_in_progress:
        self._dQ_heating[:] = self._shutdown_factor_th * self._last_dQ
    else:
        self._dQ_heating[:] = (self.chp_power_el * self._p2h_ratio * b
                               * self._startup_factor_th
                               * _pf.chp_thermal_power(m))
        self._last_dQ[:] = self._dQ_heating
    self._Pel[:] = b * self._startup_factor_el * m * self.chp_power_el
    self._Pgas[:] = (self.chp_power_el * self._eta_el_fac * b
                     * self._startup_factor_gas * _pf.chp_gas_power(m))
    if new_step:
        self.res_dQ[n] = self._dQ_heating[0]
        self.res_Pel[n] = self._Pel[0]
        self.res_Pgas[n] = self._Pgas[0]
    if self._connect_fg_hex:
        self._fg_hex_gdv[:] = self._fg_dv_at_pmax * (
            self._Pgas[0] / self._Pgas_max)
'''
CH = ['chp_startup_th', 'chp_startup_el', 'chp_startup_gas',
      'chp_shutdown_th', 'chp_thermal_power', 'chp_gas_power']
STATE = ['_power_modulation', '_chp_on', '_bin_pow_fac', '_chp_state',
         '_startup_at_time', '_shutdown_at_time', '_startup_in_progress',
         '_shutdown_in_progress', '_dt_time_temp_exc', '_remaining_heat',
         '_startup_duration', '_shutdown_duration', '_startup_factor_th',
         '_startup_factor_el', '_startup_factor_gas', '_shutdown_factor_th',
         '_dQ_heating', '_Pel', '_Pgas', '_last_dQ', 'res_dQ', 'res_Pel',
         'res_Pgas', '_fg_hex_gdv']
# the thermal side belongs to C01-C05
REST = ['_process_flow_invar', 'water_mat_props_ext_view', '_lambda_mean_view',
        'UA_plate_tb', 'surface_temp_steady_state_inplace', 'pipe_alpha_i',
        'cylinder_alpha_inf', 'UA_fld_wll_ins_amb_cyl', 'cell_temp_props_ext',
        '_process_ports_collapsed', '_vonNeumann_stability_invar']

INIT = '''
def __init__(self, name, master_cls, eta_el=0.32733, p2h_ratio=0.516796,
             max_slope_el=0.05, min_off_time=600, min_on_time=600,
             chp_on_at_start=False, **kwds):
    pel = kwds['power_electrical']
    assert isinstance(pel, (int, float))
    assert pel > 0.0
    assert isinstance(p2h_ratio, float)
    assert 0.0 < p2h_ratio
    assert p2h_ratio < 1.0
    assert isinstance(eta_el, float)
    assert 0.0 < eta_el
    assert eta_el < 1.0
    self.chp_power_el = pel
    self.p2h_ratio = p2h_ratio
    self.eta_el = eta_el
    # full load: rated electrical power, heat and gas follow from the ratios
    self.eta_th = eta_el / p2h_ratio
    self.chp_power_th = pel / p2h_ratio
    self.chp_power_gas = pel / eta_el
    self._p2h_ratio = 1 / _pf.chp_thermal_power(1.0) / p2h_ratio
    self._eta_el_fac = 1 / _pf.chp_gas_power(1.0) / eta_el
    total = eta_el + eta_el / p2h_ratio
    if 'eta_sum' in kwds:
        assert isinstance(kwds['eta_sum'], (int, float))
        assert kwds['eta_sum'] > 0
        assert total < kwds['eta_sum']
    else:
        assert total <= 0.961
    r = kwds['modulation_range']
    assert isinstance(r, (tuple, list))
    lo = float(r[0])
    hi = float(r[1])
    assert isinstance(lo, (int, float))
    assert isinstance(hi, (int, float))
    assert 0 < lo
    assert lo < hi
    assert hi <= 1
    self._mod_lower = lo
    self._mod_upper = hi
    assert isinstance(max_slope_el, float)
    assert 0 < max_slope_el
    assert max_slope_el <= 1
    self._max_ramp_el = max_slope_el
    assert isinstance(min_off_time, (int, float))
    assert 0 < min_off_time
    assert isinstance(min_on_time, (int, float))
    assert 0 < min_on_time
    self._min_off_time = min_off_time
    self._min_on_time = min_on_time
    self._T_chp_in_max = 75.0
    self._T_chp_in_max_emrgncy = 110.0
    self._max_temp_exc_time = 120
    self._dt_time_temp_exc = 0.0
    self._chp_on_perc = 0.999
    self._chp_off_perc = 0.01
    # a plant off at the start may start at once, a running one may stop
    if chp_on_at_start:
        f = 1.0
        self._startup_at_time = -min_on_time
        self._shutdown_at_time = -min_on_time - 1
        self._chp_on = True
        self._startup_in_progress = False
    else:
        f = 0.0
        self._startup_at_time = 0
        self._shutdown_at_time = -min_off_time - 1.0
        self._chp_on = False
        self._startup_in_progress = True
    self._bin_pow_fac = f
    self._startup_factor_el = f
    self._startup_factor_th = f
    self._startup_factor_gas = f
    self._shutdown_in_progress = False
    self._shutdown_factor_th = 0.0
    self._remaining_heat = 0.0
    self._dQ_heating = np.zeros(1)
    self._last_dQ = np.zeros(1)
    self._Pel = np.zeros(1)
    self._Pgas = np.zeros(1)
    self._power_modulation = np.zeros(1)
    # start-up curve from its second point up to the point closest to done
    t = np.arange(100000)
    curve = _pf.chp_startup_th(t)
    done = np.argmin(np.abs(curve - 0.999))
    self._tsteps_startup = t[1:done + 1]
    self._startuptsteps = curve[1:done + 1]
    self._actuator_CV_name = 'el_power_modulation'
    self.is_actuator = True
    self.control_req = True
    self.ctrl_defined = False
    self.actuator_special = False
    self._diff_fully_njit = False
    s = kwds['heat_spread']
    n = self.num_gp
    if s == 'single':
        assert 'heated_cells' in kwds
        c = kwds['heated_cells']
        assert type(c) == int
        assert 0 <= c and c < n
    elif s == 'range':
        assert 'heated_cells' in kwds
        r = kwds['heated_cells']
        assert isinstance(r, (list, tuple))
        assert len(r) == 2
        assert isinstance(r[0], int)
        assert isinstance(r[1], int)
        assert 0 <= r[0]
        assert r[0] < r[1]
        assert r[1] < n
    else:
        assert s == 'all'
    assert 0 <= kwds['lower_limit']
    assert kwds['lower_limit'] < kwds['upper_limit']
'''
PART = '''
def init_part(self, start_modulation=0, fluegas_flow=70 / 61.1, **kwds):
    super().init_part(**kwds)
    kwds['fluegas_flow'] = fluegas_flow
    self._print_arg_errs(self.constr_type, self.name, self._aaei, kwds)
    assert isinstance(start_modulation, (int, float))
    assert 0 <= start_modulation
    assert start_modulation <= 1
    self._actuator_CV[:] = start_modulation
    self._initialize_actuator(variable_name='_power_modulation', **kwds)
    assert isinstance(kwds['connect_fluegas_hex'], bool)
    assert isinstance(fluegas_flow, (int, float))
    assert 0 <= self._lims[0]
    assert self._lims[0] < self._lims[1]
    self._connect_fg_hex = kwds['connect_fluegas_hex']
    if kwds['connect_fluegas_hex']:
        assert 'fg_hex_name' in kwds
        assert kwds['fg_hex_name'] in self._models.parts
        hx = self._models.parts[kwds['fg_hex_name']]
        self._fg_hex = hx
        self._fg_hex_gdv = hx._dm_io[1:2]
        hx._solved_ports.extend(['fluegas_in', 'fluegas_out'])
    else:
        self._fg_hex_gdv = np.zeros(1)
    self.fluegas_flow_specific = fluegas_flow
    # Nm3/kWh at rated gas power in W -> Nm3/s
    self._fg_dv_at_pmax = self.chp_power_gas * fluegas_flow / 3.6e6
    self._Pgas_max = (self.chp_power_el * self._eta_el_fac
                      * _pf.chp_gas_power(1.0))
'''


def start(ctx):
    o = dict(opaque=['__init__', '_print_arg_errs'])
    R = ctx.run('parts.chp_plant:CHPPlant.__init__', **o)
    S = ctx.spec(INIT, like=R, **o)
    ctx.same_state(R, S)
    ctx.raises_when(R, S)
    o = dict(opaque=['init_part', '_print_arg_errs', '_initialize_actuator'])
    R = ctx.run('parts.chp_plant:CHPPlant.init_part', **o)
    S = ctx.spec(PART, like=R, **o)
    ctx.same(R, S, ['self._connect_fg_hex', 'self._fg_hex_gdv',
                    'self._fg_dv_at_pmax', 'self._Pgas_max',
                    'self._actuator_CV', 'self.fluegas_flow_specific'])
    ctx.trace(R, S, ['init_part', '_initialize_actuator', 'extend'])
    ctx.raises_when(R, S)


def step(ctx):
    R = ctx.run('parts.chp_plant:CHPPlant.get_diff', no_inline=CH + REST)
    S = ctx.spec(STEP, like=R, no_inline=CH + REST)
    # (steps have a length, ramps an amount)
    ctx.same(R, S, ['self.' + s for s in STATE],
             assume='self._max_ramp_el >= 0')
    # the heat before a shutdown is kept, whatever the heating does then
    ctx.apart(R, [('self._last_dQ', 'self._dQ_heating')])


PARTS = [('step', step), ('start', start)]
