"""C25 resetting restores the initial conditions"""

from sa import vg

LEVEL = 'other'
RULE = ('history analysis: the value graph of the state after "initialize, '
        'any run, reset" equals the one after "initialize", for a run that '
        'leaves arbitrary values in every state variable')
ASSUMPTIONS = ['`_update_FlowNet` recomputes every massflow that no actuator '
               'holds before the first step',
               'the tables of materials and pipe sizes are taken as given']
FLOOR = 60
OPT = dict(opaque=['_print_arg_errs', '_get_specs_n_props', '_chk_amb_temp',
                   'assign_boundary_cond', 'get_plate_hex_geometry',
                   'find_reynolds_correction', '_check_unconnected_ports'])


def tag(x):
    return x.replace('[', '_').replace(']', '')


def history(init, state, pre=()):
    """init; snapshot; arbitrary values everywhere; reset"""
    out = ['def history(self, {}**K):'.format(
        ''.join('h_' + tag(x) + ', ' for x in state))]
    out += list(pre) + [init]
    for x in state:
        e = x if '[' in x or not ISARR(x) else x + '.copy()'
        out += ['self.was_%s = self.%s' % (tag(x), e)]
    for x in state:
        e = x + '[:]' if ISARR(x) and '[' not in x else x
        out += ['self.%s = h_%s' % (e, tag(x))]
    out += ['self._reset_to_init_cond()']
    return '\n    '.join(out) + '\n'


def ISARR(x):
    return x in ('T', 'dm', 'pf_arr', '_dQ_heating', '_last_dQ', '_Pel',
                 '_Pgas')


def restored(ctx, target, text, xs, opts=OPT):
    R = ctx.drive(target, text, **opts)
    g = vg.not_(R.st.exc)
    f = R.cls.find('_reset_to_init_cond')
    loc = (f.module.path, f.node.lineno, f.cls.name + '.' + f.name)
    for x in xs:
        ctx.equal('{}: {} is restored by a reset'.format(R.label, x),
                  R.get('self.' + x), R.get('self.was_' + tag(x)), g, loc)
    # the history is one the part accepts
    ctx.record(R.label + ': reachable', 'discharged' if vg.satisfiable(g)
               is not None else 'violated', '', loc, 'guard')


INIT = 'self.init_part(**K)'
VALVE = ['self.pf_arr = np.array([0.5, 0.5, 1.0])',
         'self._actuator_CV = self.pf_arr[:]']
CHP = ['_chp_on', '_shutdown_in_progress', '_startup_in_progress',
       '_startup_at_time', '_shutdown_at_time', '_remaining_heat',
       '_dt_time_temp_exc', '_startup_factor_el', '_startup_factor_th',
       '_startup_factor_gas', '_bin_pow_fac', '_shutdown_factor_th',
       '_shutdown_duration', '_startup_duration']
CASES = [
    ('parts.pipe:Pipe', ['T'], []),
    ('parts.tes:Tes', ['T'], []),
    ('parts.pipe_branched:PipeBranched', ['T'], []),
    ('parts.hex_num:HexNum', ['T'], []),
    ('parts.hex_condensing_polynome:HEXCondPoly', ['T'], []),
    ('parts.heatexchanger:HeatExchanger', ['T'], []),
    ('parts.pump:Pump', ['dm[0]'], ['self.dm = np.zeros(1)']),
    ('parts.mixingvalve:MixingValve', ['pf_arr[0]', 'pf_arr[1]'], []),
    ('parts.pipe_with_pump:PipeWithPump', ['T', 'dm[0]'],
     ['self._dm_io = np.zeros(1)', 'self.dm = self._dm_io[:]',
      'self._actuator_CV = self.dm[:]']),
    ('parts.pipe_with_valve:PipeWith3wValve', ['T', 'pf_arr'], VALVE),
    ('parts.heated_pipe:HeatedPipe', ['T', '_dQ_heating'],
     ['self._dQ_heating = np.zeros(1)',
      'self._actuator_CV = self._dQ_heating[:]']),
]


def parts(ctx):
    for t, state, pre in CASES:
        restored(ctx, t, history(INIT, state, pre), state)


def chp(ctx):
    t = 'parts.chp_plant:CHPPlant'
    o = dict(OPT, opaque=OPT['opaque'] + ['print'])
    state = ['_dQ_heating', '_last_dQ'] + CHP
    restored(ctx, t, history('self.__init__(name, master_cls, **K)',
                             state).replace(
        'history(self', 'constructed(self, name, master_cls'), state, o)
    state = ['T', '_power_modulation[0]']
    restored(ctx, t, history(
        'self.init_part(start_modulation=0.7, **K)', state, [
        'self._power_modulation = np.zeros(1)',
        'self._actuator_CV = self._power_modulation[:]']).replace(
            'history(self', 'initialized(self'), state, o)


# massflows of a flow net are one memory, shared by all the parts of the net;
# only the part which defines the flow may change it
PASSIVE = ['parts.pipe:Pipe', 'parts.tes:Tes', 'parts.hex_num:HexNum',
           'parts.pipe_branched:PipeBranched', 'parts.heated_pipe:HeatedPipe',
           'parts.pipe_with_valve:PipeWith3wValve',
           'parts.mixingvalve:MixingValve', 'parts.chp_plant:CHPPlant',
           'parts.hex_condensing_polynome:HEXCondPoly',
           'parts.heatexchanger:HeatExchanger',
           'parts.connector_3w:Connector3w']


def shared_flow(ctx):
    for t in PASSIVE:
        R = ctx.run(t + '._reset_to_init_cond')
        ctx.unchanged(R, ['self._dm_io', 'self.dm'])


ZERO = ['cv', '_prev_cv', '_deriv', 'error', 'prev_error', 'prev2_error',
        'prev_i_term']
CTRL = {'PID': ZERO + ['i_term'], 'BangBang': ZERO, 'TwoSensors': ZERO,
        'ModelPredCHP': ZERO}


def controllers(ctx):
    for c, xs in CTRL.items():
        text = 'def reset(self):\n' + ''.join(
            '    self.%s = 0.0\n' % x for x in xs)
        if c == 'PID':
            text += DEAD
        if c == 'ModelPredCHP':
            text += PREDICT
        R = ctx.run('parts.controllers:' + c + '._reset_to_init_cond')
        S = ctx.spec(text, like=R)
        ctx.same_state(R, S)


DEAD = """
    self.dt_arr[:] = 0
    self.pv_arr[:] = 25
    self.dt_idx = 0
    self.last_dt_idx = 0
    self.delayed_pv = 25
"""

PREDICT = """
    self.num_opts = 0
    self._lt_prev_opt = 0.0
    self._cv_prev_opt = 0.0
    self._emerg_cnsctv = False
    self._emerg_on = False
    self._caps_adapted = False
    self._tes_caps_adpt[:] = self._tes_caps
    self._tes_cap_adpt_lo = self._tes_caps[0]
    self._tes_cap_adpt_hi = self._tes_caps[1]
    self._time_last_cap_adpt[:] = 0.0
    self._opt_chp_mod[:] = np.nan
    self._opt_chp_mod[-1, 0] = 0.0
    self._opt_chp_mod_post[:] = self._opt_chp_mod
    self._opt_status[:] = np.nan
    self._opt_cost[:] = np.nan
    self._opt_steptime[:] = np.nan
"""


PARTS = [('parts', parts), ('chp', chp), ('shared_flow', shared_flow),
         ('controllers', controllers)]
